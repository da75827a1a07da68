//! P06: request identity; P07: distribution of batched answers; P08: the merged call.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

use serde_json::{json, Value};
use tailcall::core::config::group_by::GroupBy;
use tailcall::core::data_loader::Loader;
use tailcall::core::http::verif::{BodyBatching, QueryBatching};
use tailcall::core::http::{DataLoaderRequest, HttpDataLoader};
use tailcall::core::Transform;
use tailcall_valid::Validator;

use crate::tag;
use crate::world::{paused, World};

fn h(r: &DataLoaderRequest) -> u64 {
    let mut s = DefaultHasher::new();
    r.hash(&mut s);
    s.finish()
}

fn strs(v: &Value) -> Vec<String> {
    serde_json::from_value(v.clone()).unwrap()
}

/// case: {sig: [names], reqs: [{url, body, x1, x2, x3}]} ("-" = absent)
/// -> {classes: [first equal index], law: text|null}
pub fn identity(case: &Value) -> Value {
    let sig: BTreeSet<String> = strs(&case["sig"]).into_iter().collect();
    let reqs: Vec<DataLoaderRequest> = case["reqs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| {
            let mut q = reqwest::Request::new(reqwest::Method::POST, r["url"].as_str().unwrap().parse().unwrap());
            if r["body"] != "-" {
                q.body_mut().replace(r["body"].as_str().unwrap().to_string().into());
            }
            for n in ["x1", "x2", "x3"] {
                if r[n] != "-" {
                    for v in r[n].as_str().unwrap().split('|') {
                        q.headers_mut().append(n, v.parse().unwrap());
                    }
                }
            }
            let id = r["x1"].as_str().filter(|v| *v != "-").map(|v| v.to_string());
            DataLoaderRequest::new(q, sig.clone()).with_batching_value(id)
        })
        .collect();
    let mut classes = vec![];
    let mut law = Value::Null;
    let mut map: HashMap<DataLoaderRequest, usize> = HashMap::new();
    for (i, a) in reqs.iter().enumerate() {
        let c = a.clone();
        if !(*a == *a && c == *a && *a == c && h(&c) == h(a)) {
            law = json!(format!("request {i} differs from itself or its copy"));
        }
        let (s, t) = (a.to_request(), &**a);
        if c.batching_value() != a.batching_value()
            || c.headers() != a.headers()
            || (s.method(), s.url(), s.headers()) != (t.method(), t.url(), t.headers())
            || s.body().and_then(|b| b.as_bytes()) != t.body().and_then(|b| b.as_bytes())
        {
            law = json!(format!("the copy of request {i} is another request"));
        }
        let mut first = i;
        for (j, b) in reqs.iter().enumerate() {
            let e = a == b;
            if e != (b == a) {
                law = json!(format!("equality of {i} and {j} is not symmetric"));
            }
            if e && h(a) != h(b) {
                law = json!(format!("{i} and {j} are equal and hash differently"));
            }
            if e && j < first {
                first = j;
            }
        }
        let f = *map.entry(a.clone()).or_insert(i);
        if f != first {
            law = json!(format!("a map keyed by requests finds {f} for {i}, equality {first}"));
        }
        classes.push(first);
    }
    json!({"classes": classes, "law": law})
}

fn build(case: &Value) -> Vec<DataLoaderRequest> {
    let post = case["post"] == true;
    case["reqs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| {
            let mut url: url::Url = case["base"].as_str().unwrap_or("http://up/x").parse().unwrap();
            for kv in r["query"].as_array().unwrap_or(&vec![]) {
                url.query_pairs_mut().append_pair(kv[0].as_str().unwrap(), kv[1].as_str().unwrap());
            }
            let m = if post { reqwest::Method::POST } else { reqwest::Method::GET };
            let mut q = reqwest::Request::new(m, url);
            if let Some(b) = r["body"].as_str() {
                q.body_mut().replace(b.to_string().into());
            }
            if !r["body"].is_null() && r["body"].is_array() {
                q.body_mut().replace(tag::to_json(&r["body"]).to_string().into());
            }
            DataLoaderRequest::new(q, Default::default())
                .with_batching_value(r["id"].as_str().map(|s| s.to_string()))
        })
        .collect()
}

/// case: {post, reqs: [{query, id, body}], group: {path, key}, list, answer (tagged) | fail}
/// -> {calls, out: [[body]|[]..]} in request order | {err}
pub fn distribute(case: &Value) -> Value {
    paused().block_on(async {
        let rule = if case["fail"] == true {
            json!({"url": "*", "error": "boom"})
        } else {
            json!({"url": "*", "text": tag::to_json(&case["answer"]).to_string()})
        };
        let w = World::new(&json!({"rules": [rule]}));
        let key = case["group"]["key"].as_str().filter(|s| !s.is_empty()).map(|s| s.to_string());
        let gb = GroupBy::new(strs(&case["group"]["path"]), key);
        let dl = HttpDataLoader::new(w.runtime.clone(), Some(gb), case["list"] == true);
        let reqs = build(case);
        match dl.load(&reqs).await {
            Err(e) => json!({"err": e.to_string(), "calls": w.upstream.log.lock().unwrap().len()}),
            Ok(m) => json!({
                "calls": w.upstream.log.lock().unwrap().len(),
                "query": w.upstream.log.lock().unwrap().iter().map(|c| query_of(c)).collect::<Vec<_>>(),
                "extra": m.len() as i64 - reqs.iter().collect::<HashSet<_>>().len() as i64,
                "out": reqs.iter().map(|r| match m.get(r) {
                    Some(v) => json!([tag::from_json(&v.body.clone().into_json().unwrap())]),
                    None => json!([]),
                }).collect::<Vec<_>>()}),
        }
    })
}

fn query_of(call: &Value) -> Value {
    let url = reqwest::Url::parse(call["url"].as_str().unwrap_or_default());
    json!(url.map(|u| u.query_pairs().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()).unwrap_or_default())
}

/// case: {post, base, reqs: [{query, body}], key} -> {query: [[k, v]..], body: text|null, path}
pub fn merged(case: &Value) -> Value {
    let reqs = build(case);
    let key = case["key"].as_str();
    let rest: Vec<&DataLoaderRequest> = reqs.iter().skip(1).collect();
    let all: Vec<&DataLoaderRequest> = reqs.iter().collect();
    let r = if case["post"] == true {
        let r = QueryBatching::new(&rest, None).transform(reqs[0].to_request()).to_result().unwrap();
        BodyBatching::new(&all).transform(r).to_result().unwrap()
    } else {
        QueryBatching::new(&rest, key).transform(reqs[0].to_request()).to_result().unwrap()
    };
    json!({
        "query": r.url().query_pairs().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
        "raw": r.url().as_str(),
        "body": r.body().and_then(|b| b.as_bytes()).map(|b| String::from_utf8_lossy(b).to_string()),
        "m": r.method().as_str(),
    })
}
