//! P12 merging, P16 combining subgraphs, P17 printing and reading, P32 N+1 paths, P35 transformers.
//!
//! case: {op, sources: [{kind: "graphql"|"json"|"yml", text}], group?, apply?: [{t, ..}]}
use serde_json::{json, Map, Value};
use tailcall::core::config::transformer::*;
use tailcall::core::config::{Config, ConfigModule, Directive, Field, RuntimeConfig, Source};
use tailcall::core::generator::{Generator, Input};
use tailcall::core::merge_right::MergeRight;
use tailcall::core::variance::Invariant;
use tailcall::core::{Transform, Type};
use tailcall_valid::{Valid, Validator};

fn ser<T: serde::Serialize>(v: &T) -> Value {
    serde_json::to_value(v).unwrap()
}
/// only what is set
fn put(m: &mut Map<String, Value>, k: &str, v: Value) {
    let empty = match &v {
        Value::Null => true,
        Value::Array(a) => a.is_empty(),
        Value::Object(a) => a.is_empty(),
        _ => false,
    };
    if !empty {
        m.insert(k.to_string(), v);
    }
}
pub fn type_text(t: &Type) -> String {
    match t {
        Type::Named { name, non_null } => format!("{name}{}", if *non_null { "!" } else { "" }),
        Type::List { of_type, non_null } => {
            format!("[{}]{}", type_text(of_type), if *non_null { "!" } else { "" })
        }
    }
}
fn directives(ds: &[Directive]) -> Value {
    ser(&ds)
}
fn field(f: &Field) -> Value {
    let mut m = Map::new();
    m.insert("type".into(), json!(type_text(&f.type_of)));
    put(
        &mut m,
        "args",
        json!(f
            .args
            .iter()
            .map(|(n, a)| {
                let mut m = Map::new();
                m.insert("name".into(), json!(n));
                m.insert("type".into(), json!(type_text(&a.type_of)));
                if let Some(d) = &a.default_value {
                    m.insert("default".into(), d.clone());
                }
                put(&mut m, "doc", ser(&a.doc));
                put(&mut m, "modify", ser(&a.modify));
                Value::Object(m)
            })
            .collect::<Vec<_>>()),
    );
    put(&mut m, "doc", ser(&f.doc));
    put(&mut m, "modify", ser(&f.modify));
    if f.omit.is_some() {
        m.insert("omit".into(), json!(true));
    }
    put(&mut m, "cache", ser(&f.cache));
    if let Some(d) = &f.default_value {
        m.insert("default".into(), d.clone());
    }
    if let Some(p) = &f.protected {
        m.insert("protected".into(), ser(p));
    }
    if let Some(p) = &f.discriminate {
        m.insert("discriminate".into(), ser(p));
    }
    put(&mut m, "resolvers", ser(&f.resolvers.0));
    put(&mut m, "directives", directives(&f.directives));
    Value::Object(m)
}

pub fn dump(c: &Config) -> Value {
    let mut m = Map::new();
    put(&mut m, "server", ser(&c.server));
    put(&mut m, "upstream", ser(&c.upstream));
    put(&mut m, "telemetry", ser(&c.telemetry));
    put(&mut m, "links", ser(&c.links));
    let s = &c.schema;
    m.insert("schema".into(), json!([s.query, s.mutation, s.subscription]));
    let types = c
        .types
        .iter()
        .map(|(n, t)| {
            let mut m = Map::new();
            m.insert(
                "fields".into(),
                Value::Object(t.fields.iter().map(|(n, f)| (n.clone(), field(f))).collect()),
            );
            put(&mut m, "added", ser(&t.added_fields));
            put(&mut m, "doc", ser(&t.doc));
            put(&mut m, "implements", ser(&t.implements));
            put(&mut m, "cache", ser(&t.cache));
            if let Some(p) = &t.protected {
                m.insert("protected".into(), ser(p));
            }
            put(&mut m, "resolvers", ser(&t.resolvers.0));
            put(&mut m, "directives", directives(&t.directives));
            (n.clone(), Value::Object(m))
        })
        .collect();
    m.insert("types".into(), Value::Object(types));
    m.insert(
        "unions".into(),
        Value::Object(
            c.unions
                .iter()
                .map(|(n, u)| {
                    let mut m = Map::new();
                    m.insert("types".into(), ser(&u.types));
                    put(&mut m, "doc", ser(&u.doc));
                    (n.clone(), Value::Object(m))
                })
                .collect(),
        ),
    );
    m.insert(
        "enums".into(),
        Value::Object(
            c.enums
                .iter()
                .map(|(n, u)| {
                    let mut m = Map::new();
                    m.insert(
                        "variants".into(),
                        json!(u
                            .variants
                            .iter()
                            .map(|v| match &v.alias {
                                Some(a) => json!([v.name, a.options]),
                                None => json!([v.name]),
                            })
                            .collect::<Vec<_>>()),
                    );
                    put(&mut m, "doc", ser(&u.doc));
                    (n.clone(), Value::Object(m))
                })
                .collect(),
        ),
    );
    Value::Object(m)
}

/// the values the settings have in effect
fn effective(c: &Config) -> Value {
    let (s, u) = (&c.server, &c.upstream);
    json!({
        "server": {
            "apolloTracing": s.enable_apollo_tracing(), "batchRequests": s.enable_batch_requests(),
            "globalResponseTimeout": s.get_global_response_timeout(), "hostname": s.get_hostname(),
            "introspection": s.enable_introspection(), "enableFederation": s.get_enable_federation(),
            "pipelineFlush": s.get_pipeline_flush(), "port": s.get_port(),
            "queryValidation": s.enable_query_validation(), "responseValidation": s.enable_http_validation(),
            "showcase": s.enable_showcase(), "version": ser(&s.clone().get_version()),
            "workers": s.workers.map(|_| s.get_workers()), "vars": s.get_vars(),
            "status": s.get_routes().status(), "graphQL": s.get_routes().graphql(),
            "cacheControl": s.enable_cache_control(), "setCookies": s.enable_set_cookies(),
            "custom": s.get_response_headers(), "experimental": s.get_experimental_headers(),
        },
        "upstream": {
            "onRequest": u.get_on_request(), "allowedHeaders": u.get_allowed_headers(),
            "delay": u.get_delay(), "maxSize": u.get_max_size(),
            "connectTimeout": u.get_connect_timeout(), "httpCache": u.get_http_cache_size(),
            "http2Only": u.get_http_2_only(), "keepAliveInterval": u.get_keep_alive_interval(),
            "keepAliveTimeout": u.get_keep_alive_timeout(), "keepAliveWhileIdle": u.get_keep_alive_while_idle(),
            "poolMaxIdlePerHost": u.get_pool_max_idle_per_host(), "poolIdleTimeout": u.get_pool_idle_timeout(),
            "tcpKeepAlive": u.get_tcp_keep_alive(), "timeout": u.get_timeout(),
            "userAgent": u.get_user_agent(), "verifySSL": u.get_verify_ssl(),
        },
    })
}

fn read(s: &Value) -> Result<Config, String> {
    let kind = match s["kind"].as_str().unwrap_or("graphql") {
        "graphql" => Source::GraphQL,
        "json" => Source::Json,
        "yml" => Source::Yml,
        _ => unreachable!(),
    };
    let text = match &s["text"] {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    };
    Config::from_source(kind, &text).map_err(|e| e.to_string())
}

fn fold(cs: Vec<Config>, group: &str) -> Config {
    let mut it = cs.into_iter();
    match group {
        "right" => {
            let mut v: Vec<_> = it.collect();
            let mut acc = v.pop().unwrap();
            while let Some(c) = v.pop() {
                acc = c.merge_right(acc);
            }
            acc
        }
        _ => {
            let first = it.next().unwrap();
            it.fold(first, |a, b| a.merge_right(b))
        }
    }
}

fn transform(c: Config, t: &Value) -> Valid<Config, String> {
    match t["t"].as_str().unwrap() {
        "ambiguous_type" => AmbiguousType::default().transform(c),
        "flatten_single_field" => FlattenSingleField.transform(c),
        "improve_type_names" => ImproveTypeNames.transform(c),
        "nested_unions" => NestedUnions.transform(c),
        "rename_types" => RenameTypes::new(
            t["names"].as_array().unwrap().iter().map(|p| {
                (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string())
            }),
        )
        .transform(c),
        "required" => Required.transform(c),
        "tree_shake" => TreeShake.transform(c),
        "union_input_type" => UnionInputType.transform(c),
        "merge_types" => TypeMerger::new(t["threshold"].as_f64().unwrap() as f32).transform(c),
        "preset" => Preset {
            merge_type: t["threshold"].as_f64().unwrap_or(0.0) as f32,
            tree_shake: t["shake"].as_bool().unwrap_or(false),
            infer_type_names: t["infer"].as_bool().unwrap_or(false),
            unwrap_single_field_types: t["unwrap"].as_bool().unwrap_or(false),
        }
        .transform(c),
        x => panic!("transformer {x}"),
    }
}

/// case: {inputs: [{url, m, req, res, field, mutation, headers} | {sdl}], query?, mutation?, transformers: [..]}
/// -> {sdl, config} | {err}
fn generate(case: &Value) -> Value {
    let inputs = case["inputs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|i| match i["sdl"].as_str() {
            Some(s) => Input::Config { schema: s.into(), source: Source::GraphQL },
            None => Input::Json {
                url: i["url"].as_str().unwrap().parse().unwrap(),
                method: serde_json::from_value(i["m"].clone()).unwrap_or_default(),
                req_body: i["req"].clone(),
                res_body: i["res"].clone(),
                field_name: i["field"].as_str().unwrap().into(),
                is_mutation: i["mutation"] == true,
                headers: serde_json::from_value(i["headers"].clone()).unwrap(),
            },
        })
        .collect();
    let mut g = Generator::default().inputs(inputs).mutation(case["mutation"].as_str().map(|s| s.into()));
    if let Some(q) = case["query"].as_str() {
        g = g.query(q.into());
    }
    let c = match g.generate(false) {
        Ok(c) => c.config().clone(),
        Err(e) => return json!({ "err": e.to_string() }),
    };
    let c = case["transformers"].as_array().unwrap().iter().fold(Valid::succeed(c), |c, t| c.and_then(|c| transform(c, t)));
    match c.to_result() {
        Ok(c) => json!({ "sdl": c.to_sdl(), "config": dump(&c) }),
        Err(e) => json!({ "err": e.to_string() }),
    }
}

pub fn run(case: &Value) -> Value {
    if case["op"] == "generate" {
        return generate(case);
    }
    let mut cs = vec![];
    for s in case["sources"].as_array().unwrap() {
        match read(s) {
            Ok(c) => cs.push(c),
            Err(e) => return json!({ "unreadable": e }),
        }
    }
    match case["op"].as_str().unwrap() {
        "merge" => {
            let c = fold(cs, case["group"].as_str().unwrap_or("left"));
            json!({ "config": dump(&c), "effective": effective(&c) })
        }
        "unify" => {
            let mut it = cs.into_iter().map(ConfigModule::from);
            let first = it.next().unwrap();
            let r = it.fold(Valid::succeed(first), |a: Valid<ConfigModule, String>, b| {
                a.and_then(|a| a.unify(b))
            });
            match r.to_result() {
                Ok(c) => json!({ "config": dump(c.config()) }),
                Err(e) => json!({ "err": e.as_vec().iter().map(|c| json!([c.message, c.trace])).collect::<Vec<_>>() }),
            }
        }
        // read, write, read, write
        "print" => {
            let c = cs.remove(0);
            let sdl = c.to_sdl();
            let again = read(&json!({"text": sdl}));
            let rt = RuntimeConfig {
                server: c.server.clone(),
                upstream: c.upstream.clone(),
                links: c.links.clone(),
                telemetry: c.telemetry.clone(),
            };
            let back = |kind: &str, text: String| match read(&json!({"kind": kind, "text": text})) {
                Ok(c) => dump(&c),
                Err(e) => json!({ "unreadable": e }),
            };
            json!({
                "config": dump(&c),
                "sdl": sdl,
                "again": match &again { Ok(c) => dump(c), Err(e) => json!({"unreadable": e}) },
                "sdl2": again.ok().map(|c| c.to_sdl()),
                "json": back("json", rt.to_json(false).unwrap()),
                "pretty": back("json", rt.to_json(true).unwrap()),
                "yml": back("yml", rt.to_yaml().unwrap()),
            })
        }
        "apply" => {
            let mut c = cs.remove(0);
            for t in case["apply"].as_array().unwrap() {
                match transform(c, t).to_result() {
                    Ok(d) => c = d,
                    Err(e) => return json!({ "err": e.as_vec().iter().map(|c| json!([c.message, c.trace])).collect::<Vec<_>>() }),
                }
            }
            json!({ "config": dump(&c), "sdl": c.to_sdl() })
        }
        "n_plus_one" => {
            let p = cs.remove(0).n_plus_one();
            json!({ "paths": p.to_string(), "size": p.size() })
        }
        x => panic!("op {x}"),
    }
}
