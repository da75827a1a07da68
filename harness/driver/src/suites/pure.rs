//! P10 templates, P11 merging, P13 composed steps, P14 discriminators, P15 scalars.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use async_graphql::{Name, ServerError};
use async_graphql_value::ConstValue;
use indexmap::IndexMap;
use serde_json::{json, Value};
use tailcall::core::http::RequestContext;
use tailcall::core::ir::{Discriminator, EvalContext, ResolverContextLike, SelectionField};
use tailcall::core::json::JsonLike;
use tailcall::core::merge_right::MergeRight;
use tailcall::core::mustache::{Mustache, PathStringEval, Segment};
use tailcall::core::path::{PathValue, ValueString};
use tailcall::core::scalar::Scalar;
use tailcall::core::try_fold::TryFold;
use tailcall_valid::{Valid, Validator};

use crate::tag;
use crate::world::World;

fn cv(t: &Value) -> ConstValue {
    ConstValue::from_json(tag::to_json(t)).unwrap()
}
fn back(v: ConstValue) -> Value {
    tag::from_json(&v.into_json().unwrap())
}
fn st(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}

// ------------------------------------------------------------------ P10
#[derive(Clone)]
struct Ctx {
    value: Option<ConstValue>,
    args: IndexMap<Name, ConstValue>,
}
impl ResolverContextLike for Ctx {
    fn value(&self) -> Option<&ConstValue> {
        self.value.as_ref()
    }
    fn args(&self) -> Option<&IndexMap<Name, ConstValue>> {
        Some(&self.args)
    }
    fn field(&self) -> Option<SelectionField> {
        None
    }
    fn is_query(&self) -> bool {
        true
    }
    fn add_error(&self, _: ServerError) {}
}

fn segs(m: &Mustache) -> Value {
    json!(m
        .segments()
        .iter()
        .map(|s| match s {
            Segment::Literal(t) => json!(["lit", [t]]),
            Segment::Expression(p) => json!(["exp", p]),
        })
        .collect::<Vec<_>>())
}

/// case: {t, render?: {args (tagged object), value: [tagged]|[], vars, env, headers}} or {batch: [..]}
pub fn mustache(case: &Value) -> Value {
    let m = Mustache::parse(case["t"].as_str().unwrap());
    let mut out = json!({"segs": segs(&m), "show": m.to_string(), "const": m.is_const()});
    let again = Mustache::parse(&m.to_string());
    out["again"] = segs(&again);
    out["names"] = json!(["a", "b1", "value", "id", "l", "args", "x"].iter().filter(|n| m.expression_contains(n)).collect::<Vec<_>>());
    let r = &case["render"];
    if r.is_null() {
        return out;
    }
    let w = World::new(&json!({"env": r["env"]}));
    let mut req = RequestContext::new(w.runtime.clone());
    req.server.vars = serde_json::from_value::<BTreeMap<String, String>>(r["vars"].clone()).unwrap();
    for (k, v) in r["headers"].as_object().unwrap() {
        req.allowed_headers.insert(
            k.parse::<http::HeaderName>().unwrap(),
            v.as_str().unwrap().parse().unwrap(),
        );
    }
    let ConstValue::Object(args) = cv(&r["args"]) else { panic!() };
    let ctx = Ctx { value: r["value"].as_array().unwrap().first().map(cv), args };
    let ec = EvalContext::new(&req, &ctx);
    out["str"] = json!(m.render(&ec));
    out["gql"] = json!(m.render_graphql(&ec));
    out["partial"] = json!(PathStringEval::new().eval_partial(&m, &ec));
    out["raw"] = json!(m
        .expression_segments()
        .into_iter()
        .map(|p| match ec.raw_value(p) {
            None => json!([]),
            Some(ValueString::Value(v)) => json!([back(v.into_owned())]),
            Some(ValueString::String(s)) => json!([["s", s]]),
        })
        .collect::<Vec<_>>());
    // the same template over plain JSON
    let j = json!({"args": tag::to_json(&r["args"]), "vars": r["vars"], "env": r["env"], "headers": r["headers"]});
    let mut j = j;
    if let Some(v) = r["value"].as_array().unwrap().first() {
        j["value"] = tag::to_json(v);
    }
    out["json"] = json!(m.render(&j));
    out
}

// ------------------------------------------------------------------ P15
/// case: {scalar, values: [tagged]} -> [[bool, bool]] on both representations
pub fn scalars(case: &Value) -> Value {
    let s = Scalar::find(case["scalar"].as_str().unwrap()).unwrap();
    let known: Vec<bool> = case["names"].as_array().unwrap().iter().map(|n| Scalar::is_predefined(n.as_str().unwrap())).collect();
    let ok = json!(case["values"]
        .as_array()
        .unwrap()
        .iter()
        .map(|v| {
            let j = tag::to_json(v);
            let a = s.validate(&j);
            let b = s.validate(&ConstValue::from_json(j.clone()).unwrap());
            let text = j.to_string();
            let bv: serde_json_borrow::Value = serde_json::from_str(&text).unwrap();
            // validate wants the value borrowed for its own lifetime
            let bv: &serde_json_borrow::Value<'static> = unsafe { std::mem::transmute(&bv) };
            let bv: &'static serde_json_borrow::Value<'static> = Box::leak(Box::new(bv.clone()));
            json!([a, b, s.validate(bv)])
        })
        .collect::<Vec<_>>());
    json!({"ok": ok, "known": known})
}

// ------------------------------------------------------------------ P13
type St = Vec<String>;
fn fold(p: &Value) -> TryFold<'static, (), St, String> {
    let x = p[1].as_str().unwrap_or("").to_string();
    match p[0].as_str().unwrap() {
        "ok" => TryFold::new(move |_, mut s: St| {
            s.push(x.clone());
            Valid::succeed(s)
        }),
        "fail" => TryFold::new(move |_, _| Valid::fail(x.clone())),
        "fail2" => TryFold::new(move |_, s: St| {
            Valid::<(), String>::fail(x.clone()).and(Valid::<(), String>::fail(format!("{x}'"))).map_to(s)
        }),
        "dep" => TryFold::new(move |_, s: St| {
            if s.is_empty() {
                Valid::succeed(vec![x.clone()])
            } else {
                Valid::fail(format!("{x}{}", s.len()))
            }
        }),
        "empty" => TryFold::empty(),
        "and" => fold(&p[1]).and(fold(&p[2])),
        "list" => p[1].as_array().unwrap().iter().map(fold).collect(),
        "trace" => fold(&p[1]).trace(Box::leak(st(&p[2]).into_boxed_str())),
        "update" => fold(&p[1]).update(|mut s| {
            s.push("u".to_string());
            s
        }),
        "transform" => fold(&p[1]).transform(
            |o: St, mut o1: St| {
                o1.push("(".into());
                o1.extend(o);
                o1.push(")".into());
                o1
            },
            |mut o1: St| {
                o1.push("d".into());
                o1
            },
        ),
        "down" => fold(&p[1]).transform_valid(|o: St, _: St| Valid::succeed(o), |_| Valid::fail("down".to_string())),
        "up" => fold(&p[1]).transform_valid(|_: St, _: St| Valid::fail("up".to_string()), Valid::succeed),
        _ => panic!(),
    }
}

/// case: {p, s} -> ["ok", state] | ["err", [[text, trail]..]]
pub fn tryfold(case: &Value) -> Value {
    let s: St = serde_json::from_value(case["s"].clone()).unwrap();
    match fold(&case["p"]).try_fold(&(), s).to_result() {
        Ok(s) => json!(["ok", s]),
        Err(e) => json!(["err", e
            .as_vec()
            .iter()
            .map(|c| json!([c.message, c.trace.iter().cloned().collect::<Vec<_>>()]))
            .collect::<Vec<_>>()]),
    }
}

// ------------------------------------------------------------------ P14
/// case: {mode, v} -> [tagged] | []
pub fn discriminate(case: &Value) -> Value {
    let types: BTreeSet<String> = ["Foo".to_string(), "Bar".to_string()].into();
    let f = (case["mode"] == "field").then(|| "kind".to_string());
    let d = Discriminator::new("U".to_string(), types, f).to_result().unwrap();
    match d.resolve_type(cv(&case["v"])) {
        Ok(v) => json!([back(v)]),
        Err(_) => json!([]),
    }
}

// ------------------------------------------------------------------ P11
trait Codec: Sized + Clone + MergeRight {
    fn de(v: &Value) -> Self;
    fn en(self) -> Value;
}
impl Codec for Option<u32> {
    fn de(v: &Value) -> Self {
        v[0].as_u64().map(|x| x as u32)
    }
    fn en(self) -> Value {
        json!(self.into_iter().collect::<Vec<_>>())
    }
}
impl Codec for Vec<u32> {
    fn de(v: &Value) -> Self {
        serde_json::from_value(v.clone()).unwrap()
    }
    fn en(self) -> Value {
        json!(self)
    }
}
impl Codec for Option<Vec<u32>> {
    fn de(v: &Value) -> Self {
        v.get(0).map(Codec::de)
    }
    fn en(self) -> Value {
        json!(self.into_iter().collect::<Vec<_>>())
    }
}
impl Codec for BTreeSet<u32> {
    fn de(v: &Value) -> Self {
        <Vec<u32> as Codec>::de(v).into_iter().collect()
    }
    fn en(self) -> Value {
        json!(self)
    }
}
impl Codec for HashSet<u32> {
    fn de(v: &Value) -> Self {
        <Vec<u32> as Codec>::de(v).into_iter().collect()
    }
    fn en(self) -> Value {
        json!(self.into_iter().collect::<BTreeSet<_>>())
    }
}
fn pairs<V: Codec>(v: &Value) -> Vec<(String, V)> {
    v.as_array().unwrap().iter().map(|e| (st(&e[0]), V::de(&e[1]))).collect()
}
impl Codec for BTreeMap<String, Option<u32>> {
    fn de(v: &Value) -> Self {
        pairs(v).into_iter().collect()
    }
    fn en(self) -> Value {
        json!(self.into_iter().map(|(k, v)| json!([k, v.en()])).collect::<Vec<_>>())
    }
}
impl Codec for HashMap<String, Option<u32>> {
    fn de(v: &Value) -> Self {
        pairs(v).into_iter().collect()
    }
    fn en(self) -> Value {
        self.into_iter().collect::<BTreeMap<_, _>>().en()
    }
}
impl Codec for IndexMap<String, Vec<u32>> {
    fn de(v: &Value) -> Self {
        pairs(v).into_iter().collect()
    }
    fn en(self) -> Value {
        json!(self.into_iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>())
    }
}
impl Codec for ConstValue {
    fn de(v: &Value) -> Self {
        cv(v)
    }
    fn en(self) -> Value {
        back(self)
    }
}
/// values may carry a tag: ["t", tag, value]
impl Codec for serde_yaml_ng::Value {
    fn de(v: &Value) -> Self {
        use serde_yaml_ng::value::{Tag, TaggedValue};
        let each = || v[1].as_array().unwrap().iter();
        match v[0].as_str().unwrap() {
            "t" => Self::Tagged(Box::new(TaggedValue { tag: Tag::new(v[1].as_str().unwrap()), value: Self::de(&v[2]) })),
            "a" => Self::Sequence(each().map(Self::de).collect()),
            "o" => Self::Mapping(each().map(|kv| (Self::String(kv[0].as_str().unwrap().to_string()), Self::de(&kv[1]))).collect()),
            _ => serde_yaml_ng::to_value(tag::to_json(v)).unwrap(),
        }
    }
    fn en(self) -> Value {
        match self {
            Self::Tagged(t) => json!(["t", t.tag.to_string().trim_start_matches('!'), t.value.en()]),
            Self::Sequence(a) => json!(["a", a.into_iter().map(Self::en).collect::<Vec<_>>()]),
            Self::Mapping(m) => {
                json!(["o", m.into_iter().map(|(k, v)| json!([k.as_str().unwrap(), v.en()])).collect::<Vec<_>>()])
            }
            v => tag::from_json(&serde_json::to_value(v).unwrap()),
        }
    }
}

fn merge_as<T: Codec>(case: &Value) -> Value {
    let (a, b) = (T::de(&case["a"]), T::de(&case["b"]));
    let m = |x: T, y: T| x.merge_right(y);
    let thirds: Vec<T> = case["thirds"].as_array().unwrap().iter().map(T::de).collect();
    json!({
        "ab": m(a.clone(), b.clone()).en(),
        "ab_c": thirds.iter().map(|t| m(m(a.clone(), b.clone()), t.clone()).en()).collect::<Vec<_>>(),
        "a_bc": thirds.iter().map(|t| m(a.clone(), m(b.clone(), t.clone())).en()).collect::<Vec<_>>(),
    })
}

/// case: {k, a, b, thirds}
pub fn merge(case: &Value) -> Value {
    match case["k"].as_str().unwrap() {
        "opt" => merge_as::<Option<u32>>(case),
        "optseq" => merge_as::<Option<Vec<u32>>>(case),
        "seq" => merge_as::<Vec<u32>>(case),
        "btset" => merge_as::<BTreeSet<u32>>(case),
        "hashset" => merge_as::<HashSet<u32>>(case),
        "btmap" => merge_as::<BTreeMap<String, Option<u32>>>(case),
        "hashmap" => merge_as::<HashMap<String, Option<u32>>>(case),
        "indexmap" => merge_as::<IndexMap<String, Vec<u32>>>(case),
        "json" => merge_as::<ConstValue>(case),
        "yaml" => merge_as::<serde_yaml_ng::Value>(case),
        _ => panic!(),
    }
}

#[allow(dead_code)]
fn _uses(v: &ConstValue) -> (bool, Cow<'static, str>) {
    (v.is_null(), "".into())
}
