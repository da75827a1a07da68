//! P04: the expiring cache on virtual time; P05: the store of HTTP responses.
use std::num::NonZeroU64;
use std::time::Duration;

use http_cache_reqwest::{CacheManager, HttpResponse};
use http_cache_semantics::CachePolicy;
use serde_json::{json, Value};
use tailcall::core::cache::InMemoryCache;
use tailcall::core::Cache;
use tailcall_http_cache::HttpCacheManager;

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap()
}

/// case: {cap, steps: [Set{k,v,ttl}|Get{k}|Tick]} -> [{v, rate}]
pub fn ttl(case: &Value) -> Value {
    rt().block_on(async {
        let cache: InMemoryCache<u64, String> = InMemoryCache::new(case["cap"].as_u64().unwrap() as usize);
        let mut out = vec![];
        for s in case["steps"].as_array().unwrap() {
            let k = s["k"].as_u64().unwrap_or(0);
            let v = match s["a"].as_str().unwrap() {
                "Set" => {
                    cache
                        .set(
                            k,
                            s["v"].as_str().unwrap().to_string(),
                            NonZeroU64::new(s["ttl"].as_u64().unwrap()).unwrap(),
                        )
                        .await
                        .unwrap();
                    "-".to_string()
                }
                "Get" => cache.get(&k).await.unwrap().unwrap_or("none".to_string()),
                _ => {
                    tokio::time::advance(Duration::from_millis(100)).await;
                    "-".to_string()
                }
            };
            out.push(json!({"v": v, "rate": cache.hit_rate()}));
        }
        json!(out)
    })
}

fn entry(v: &str) -> (HttpResponse, CachePolicy) {
    let n = v.bytes().map(|b| b as u64).sum::<u64>();
    let req = http::Request::get("http://x/").body(()).unwrap();
    let res = http::Response::builder()
        .header("cache-control", format!("max-age={}", n * 1000))
        .body(())
        .unwrap();
    (
        serde_json::from_value(json!({
            "body": v.as_bytes(),
            "headers": {"v": v},
            "status": 200 + n % 50,
            "url": format!("http://x/{v}"),
            "version": "HTTP/1.1",
        }))
        .unwrap(),
        CachePolicy::new(&req, &res),
    )
}

fn lifetime(p: &CachePolicy) -> u64 {
    (p.time_to_live(std::time::SystemTime::now()).as_secs() + 500) / 1000
}

/// case: {cap, steps: [Put{k,v}|Get{k}|Delete{k}|Clear]} -> [value]; a value is reported only if response and
/// policy both are the ones stored together
pub fn store(case: &Value) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let m = HttpCacheManager::new(case["cap"].as_u64().unwrap());
        let vals = ["x", "y"];
        let name = |r: &HttpResponse, p: Option<&CachePolicy>| {
            for v in vals {
                let (er, ep) = entry(v);
                if serde_json::to_value(r).unwrap() == serde_json::to_value(&er).unwrap()
                    && p.map(|p| lifetime(p) == lifetime(&ep)).unwrap_or(true)
                {
                    return v.to_string();
                }
            }
            "mixed".to_string()
        };
        let mut out = vec![];
        for s in case["steps"].as_array().unwrap() {
            let k = format!("GET:http://x/{}", s["k"].as_u64().unwrap_or(0));
            out.push(match s["a"].as_str().unwrap() {
                "Put" => {
                    let (r, p) = entry(s["v"].as_str().unwrap());
                    match m.put(k, r, p).await {
                        Ok(r) => name(&r, None),
                        Err(e) => format!("error {e}"),
                    }
                }
                "Get" => match m.get(&k).await {
                    Ok(Some((r, p))) => name(&r, Some(&p)),
                    Ok(None) => "none".to_string(),
                    Err(e) => format!("error {e}"),
                },
                "Delete" => match m.delete(&k).await {
                    Ok(()) => "-".to_string(),
                    Err(e) => format!("error {e}"),
                },
                _ => match m.clear().await {
                    Ok(()) => "-".to_string(),
                    Err(e) => format!("error {e}"),
                },
            });
        }
        json!(out)
    })
}
