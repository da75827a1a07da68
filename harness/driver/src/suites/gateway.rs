//! A whole gateway in process: configuration read through the real reader, requests through the real handler.
//! case: {files, entry: [..], env, rules, js, steps: [..]}
//! steps: {req: R} | {par: [R..]} | {advance: ms} | {rules: [..]} | {restart: true} | {cache_off}
//! R: {q, v, op, h, p, m} | {b: text, ..}
//! observation: {config_error} | [{res: [..], calls: [..]}]
use std::sync::Arc;
use std::time::Duration;

use hyper::{Body, Request};
use serde_json::{json, Value};
use tailcall::core::app_context::AppContext;
use tailcall::core::async_graphql_hyper::{GraphQLBatchRequest, GraphQLRequest};
use tailcall::core::blueprint::Blueprint;
use tailcall::core::config::reader::ConfigReader;
use tailcall::core::config::ConfigModule;
use tailcall::core::http::handle_request;
use tailcall_valid::Validator;

use crate::world::{header_pairs, paused, World};

pub async fn read(world: &World, case: &Value) -> anyhow::Result<ConfigModule> {
    let entry: Vec<String> = serde_json::from_value(case["entry"].clone()).unwrap_or(vec!["main.graphql".to_string()]);
    ConfigReader::init(world.runtime.clone()).read_all(&entry).await
}

pub async fn context(world: &World, module: &ConfigModule) -> anyhow::Result<Arc<AppContext>> {
    let blueprint = Blueprint::try_from(module).map_err(|e| anyhow::anyhow!(e.to_string()))?;
    let endpoints = module
        .extensions()
        .endpoint_set
        .clone()
        .into_checked(&blueprint, world.runtime.clone())
        .await?;
    Ok(Arc::new(AppContext::new(blueprint, world.runtime.clone(), endpoints)))
}

fn request(r: &Value) -> Request<Body> {
    let mut b = Request::builder()
        .method(r["m"].as_str().unwrap_or("POST"))
        .uri(format!("http://gw{}", r["p"].as_str().unwrap_or("/graphql")));
    for kv in r["h"].as_array().unwrap_or(&vec![]) {
        b = b.header(kv[0].as_str().unwrap(), http::HeaderValue::from_bytes(kv[1].as_str().unwrap().as_bytes()).unwrap());
    }
    let body = if let Some(t) = r["b"].as_str() {
        t.as_bytes().to_vec()
    } else if let Some(bytes) = r["bytes"].as_array() {
        bytes.iter().map(|b| b.as_u64().unwrap() as u8).collect()
    } else if r["q"].is_string() {
        let mut o = serde_json::Map::new();
        o.insert("query".into(), r["q"].clone());
        if !r["v"].is_null() {
            o.insert("variables".into(), r["v"].clone());
        }
        if !r["op"].is_null() {
            o.insert("operationName".into(), r["op"].clone());
        }
        Value::Object(o).to_string().into_bytes()
    } else {
        vec![]
    };
    b.body(Body::from(body)).unwrap()
}

async fn serve(ctx: Arc<AppContext>, r: Value) -> Value {
    let batch = ctx.blueprint.server.enable_batch_requests;
    let raw = r["raw"] == json!(true);
    let h = tokio::spawn(async move {
        let req = request(&r);
        let res = if batch {
            handle_request::<GraphQLBatchRequest>(req, ctx).await
        } else {
            handle_request::<GraphQLRequest>(req, ctx).await
        };
        match res {
            Err(e) => json!({"err": e.to_string()}),
            Ok(res) => {
                let status = res.status().as_u16();
                let h = header_pairs(res.headers());
                let bytes = hyper::body::to_bytes(res.into_body()).await.unwrap();
                let mut o = json!({"s": status, "h": h});
                match serde_json::from_slice::<Value>(&bytes) {
                    Ok(j) if !raw => o["j"] = j,
                    _ => o["b"] = json!(String::from_utf8_lossy(&bytes)),
                }
                o
            }
        }
    });
    match h.await {
        Ok(v) => v,
        Err(e) => {
            let p = e.into_panic();
            let t = p
                .downcast_ref::<String>()
                .cloned()
                .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({ "panic": t })
        }
    }
}

pub fn run(case: &Value) -> Value {
    paused().block_on(async {
        let world = World::new(case);
        let module = match read(&world, case).await {
            Ok(m) => m,
            Err(e) => return json!({"config_error": e.to_string()}),
        };
        let mut ctx = match context(&world, &module).await {
            Ok(c) => c,
            Err(e) => return json!({"config_error": e.to_string()}),
        };
        world.upstream.log.lock().unwrap().clear();
        let mut out = vec![];
        for s in case["steps"].as_array().unwrap() {
            let mut res = vec![];
            if let Some(ms) = s["advance"].as_u64() {
                tokio::time::advance(Duration::from_millis(ms)).await;
            } else if let Some(r) = s["rules"].as_array() {
                *world.upstream.rules.lock().unwrap() = r.clone();
            } else if s["restart"] == true {
                let mut w2 = World::new(case);
                w2.upstream = world.upstream.clone();
                w2.runtime.http = world.runtime.http.clone();
                w2.runtime.http2_only = world.runtime.http2_only.clone();
                ctx = match context(&w2, &module).await {
                    Ok(c) => c,
                    Err(e) => return json!({"config_error": e.to_string()}),
                };
            } else if let Some(rs) = s["par"].as_array() {
                let hs: Vec<_> = rs.iter().map(|r| serve(ctx.clone(), r.clone())).collect();
                res = futures_util::future::join_all(hs).await;
            } else {
                res.push(serve(ctx.clone(), s["req"].clone()).await);
            }
            // let everything that was started come to rest
            for _ in 0..20 {
                tokio::task::yield_now().await;
            }
            let calls = std::mem::take(&mut *world.upstream.log.lock().unwrap());
            let js = std::mem::take(&mut *world.worker.1.lock().unwrap());
            let mut o = json!({"res": res, "calls": calls});
            if !js.is_empty() {
                o["js"] = json!(js);
            }
            let hooks = std::mem::take(&mut *world.cmd.1.lock().unwrap());
            if !hooks.is_empty() {
                o["hooks"] = json!(hooks);
            }
            out.push(o);
        }
        json!(out)
    })
}
