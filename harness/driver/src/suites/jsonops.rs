//! P09: JSON operations on all three JSON representations. case: {v, paths, opaths, fail} (tagged values)
use async_graphql_value::{ConstValue, Name, Value as GqlValue};
use serde_json::{json, Value};
use tailcall::core::json::{gather_path_matches, JsonLike, JsonLikeList, JsonObjectLike};

use crate::tag;

trait Back {
    fn back(&self) -> Value;
}
impl Back for Value {
    fn back(&self) -> Value {
        tag::from_json(self)
    }
}
impl Back for ConstValue {
    fn back(&self) -> Value {
        tag::from_json(&self.clone().into_json().unwrap())
    }
}
impl Back for GqlValue {
    fn back(&self) -> Value {
        tag::from_json(&self.clone().into_json().unwrap())
    }
}
impl Back for serde_json_borrow::Value<'_> {
    fn back(&self) -> Value {
        tag::from_json(&serde_json::from_str(&self.to_string()).unwrap())
    }
}

fn strs(v: &Value) -> Vec<String> {
    serde_json::from_value(v.clone()).unwrap()
}

fn ops<'a, J: JsonLike<'a> + Back + Clone>(v: &'a J, case: &Value, wrap: impl Fn(&J) -> J) -> Value {
    let paths: Vec<Value> = case["paths"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| match v.get_path(&strs(p)) {
            Some(x) => json!([x.back()]),
            None => json!([]),
        })
        .collect();
    let mut gather = vec![];
    let mut groups = vec![];
    for p in case["opaths"].as_array().unwrap() {
        let p = strs(p);
        gather.push(json!(gather_path_matches(v, &p, vec![])
            .into_iter()
            .map(|(a, b)| json!([a.back(), b.back()]))
            .collect::<Vec<_>>()));
        let mut g: Vec<(String, Vec<Value>)> = v
            .group_by(&p)
            .into_iter()
            .map(|(k, v)| (k, v.into_iter().map(|x| x.back()).collect()))
            .collect();
        g.sort_by(|a, b| a.0.cmp(&b.0));
        groups.push(json!(g));
    }
    let mut leaves = vec![];
    v.for_each(&mut |x| leaves.push(x.back()));
    let fail = &case["fail"];
    let mut seen = vec![];
    let mut mapper = |x: &J| -> Result<J, usize> {
        seen.push(x.back());
        if &x.back() == fail {
            Err(seen.len())
        } else {
            Ok(wrap(x))
        }
    };
    let r1 = v.map_ref(&mut mapper).map(|x| x.back());
    let s1 = seen.clone();
    let mut seen2 = vec![];
    let r2 = v
        .clone()
        .map(&mut |x: J| -> Result<J, usize> {
            seen2.push(x.back());
            if &x.back() == fail {
                Err(seen2.len())
            } else {
                Ok(wrap(&x))
            }
        })
        .map(|x| x.back());
    let res = |r: Result<Value, usize>| match r {
        Ok(v) => json!({ "ok": v }),
        Err(n) => json!({ "err": n }),
    };
    let puts: Vec<Value> = ["id", "zz"]
        .iter()
        .map(|k| {
            let mut w = v.clone();
            match w.as_object_mut() {
                Some(o) => {
                    o.insert_key(k, J::string("new".into()));
                    let o = w.as_object().unwrap();
                    let known = o.get_key(k).map(|x| x.back()) == Some(json!(["s", "new"])) && o.len() == o.iter().count() && !o.is_empty();
                    if known { json!([w.back()]) } else { json!("a key that was set is not found") }
                }
                None => json!([]),
            }
        })
        .collect();
    let asv = json!({
        "null": v.is_null(),
        "bool": v.as_bool().map(|b| b.to_string()).into_iter().collect::<Vec<_>>(),
        "str": v.as_str().into_iter().collect::<Vec<_>>(),
        "i64": v.as_i64().map(|b| b.to_string()).into_iter().collect::<Vec<_>>(),
        "u64": v.as_u64().map(|b| b.to_string()).into_iter().collect::<Vec<_>>(),
        "arr": v.as_array().map(|a| a.len()).into_iter().collect::<Vec<_>>(),
        "obj": v.as_object().map(|a| a.len()).into_iter().collect::<Vec<_>>(),
    });
    json!({"puts": puts, "as": asv, "paths": paths, "gather": gather, "groups": groups, "leaves": leaves,
           "map_ref": res(r1), "seen_ref": s1, "map": res(r2), "seen": seen2})
}

pub fn run(case: &Value) -> Value {
    let v = tag::to_json(&case["v"]);
    let text = v.to_string();
    let a = ops(&v, case, |x| json!({"w": x}));
    let c = ConstValue::from_json(v.clone()).unwrap();
    let b = ops(&c, case, |x| ConstValue::from_json(json!({"w": x.clone().into_json().unwrap()})).unwrap());
    let leaked: &'static str = Box::leak(text.clone().into_boxed_str());
    let bv: serde_json_borrow::Value<'static> = serde_json::from_str(leaked).unwrap();
    let bv: &'static serde_json_borrow::Value<'static> = Box::leak(Box::new(bv));
    let d = ops(bv, case, |x| {
        let mut o = serde_json_borrow::ObjectAsVec::default();
        o.insert("w", x.clone());
        serde_json_borrow::Value::Object(o)
    });
    let g: GqlValue = c.clone().into_value();
    let e = ops(&g, case, |x| {
        GqlValue::Object([(Name::new("w"), x.clone())].into_iter().collect())
    });
    // every representation copied into every other
    let en = enums(&c);
    let mut copies = vec![];
    macro_rules! copy {
        ($($from:expr),*) => {$(
            copies.push(<Value as JsonLike>::clone_from($from).back());
            copies.push(<ConstValue as JsonLike>::clone_from($from).back());
            copies.push(<GqlValue as JsonLike>::clone_from($from).back());
            copies.push(<serde_json_borrow::Value as JsonLike>::clone_from($from).back());
        )*};
    }
    copy!(&v, &c, &g, bv, &en);
    copies.dedup();
    json!([a, b, d, e, copies])
}

/// the same value with enum values in place of strings
fn enums(v: &ConstValue) -> ConstValue {
    match v {
        ConstValue::String(s) => ConstValue::Enum(Name::new(s)),
        ConstValue::List(l) => ConstValue::List(l.iter().map(enums).collect()),
        ConstValue::Object(o) => ConstValue::Object(o.iter().map(|(k, v)| (k.clone(), enums(v))).collect()),
        v => v.clone(),
    }
}
