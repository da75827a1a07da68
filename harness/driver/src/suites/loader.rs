//! P02/P03: the batching loader and its cache on virtual time.
//! case: {cache: "none"|"map"|"lru", cap, max, steps: [{a: Load|Fire|Complete|Abandon|Feed|Clear|Switch, ..}]}
//! observation: one {loads, done, cache} per step
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde_json::{json, Value};
use tailcall::core::data_loader::verif::{CacheFactory, HashMapCache, NoCache};
use tailcall::core::data_loader::{DataLoader, Loader, LruCache};
use tokio::sync::oneshot;

type Val = (String, u64);

struct Call {
    keys: Vec<u64>,
    gate: Option<oneshot::Sender<String>>,
}
#[derive(Default)]
struct World {
    calls: Vec<Call>,
    seen: usize,
    done: Vec<(usize, Value)>,
}
#[derive(Clone)]
struct Mock(Arc<Mutex<World>>);

#[async_trait::async_trait]
impl Loader<u64> for Mock {
    type Value = Val;
    type Error = String;
    async fn load(&self, keys: &[u64]) -> Result<HashMap<u64, Val>, String> {
        let (tx, rx) = oneshot::channel();
        let mut ks = keys.to_vec();
        ks.sort();
        let b = {
            let mut w = self.0.lock().unwrap();
            w.calls.push(Call { keys: ks.clone(), gate: Some(tx) });
            w.calls.len() as u64
        };
        let o = rx.await.unwrap_or("err".to_string());
        match o.as_str() {
            "err" => Err("boom".to_string()),
            "part" => Ok(ks.iter().skip(1).map(|k| (*k, ("b".to_string(), b))).collect()),
            _ => Ok(ks.iter().map(|k| (*k, ("b".to_string(), b))).collect()),
        }
    }
}

fn pairs(m: HashMap<u64, Val>) -> Value {
    let mut v: Vec<_> = m.into_iter().collect();
    v.sort();
    json!(v.into_iter().map(|(k, v)| json!([k, [v.0, v.1]])).collect::<Vec<_>>())
}

async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}

async fn drive<C: CacheFactory<u64, Val>>(case: &Value, factory: C) -> Value
where
    C::Storage: Send + Sync,
{
    let delay = Duration::from_millis(100_000);
    let world = Arc::new(Mutex::new(World::default()));
    let dl = Arc::new(
        DataLoader::with_cache(Mock(world.clone()), factory)
            .delay(delay)
            .max_batch_size(case["max"].as_u64().unwrap() as usize),
    );
    let mut out = vec![];
    let mut tasks = vec![];
    let mut times = vec![];
    for s in case["steps"].as_array().unwrap() {
        match s["a"].as_str().unwrap() {
            "Load" => {
                tokio::time::advance(Duration::from_millis(10)).await;
                times.push(tokio::time::Instant::now());
                let ks: Vec<u64> = serde_json::from_value(s["ks"].clone()).unwrap();
                let one = s["one"].as_bool().unwrap();
                let (dl, world, r) = (dl.clone(), world.clone(), tasks.len() + 1);
                tasks.push(tokio::spawn(async move {
                    let res = if one {
                        dl.load_one(ks[0]).await.map(|v| v.into_iter().map(|v| (ks[0], v)).collect())
                    } else {
                        dl.load_many(ks).await
                    };
                    let v = match res {
                        Ok(m) => json!({ "ok": pairs(m) }),
                        Err(_) => json!({"err": true}),
                    };
                    world.lock().unwrap().done.push((r, v));
                }));
            }
            "Fire" => {
                let t = times[s["r"].as_u64().unwrap() as usize - 1] + delay + Duration::from_millis(1);
                let now = tokio::time::Instant::now();
                tokio::time::advance(t - now).await;
            }
            "Complete" => {
                let b = s["b"].as_u64().unwrap() as usize;
                let g = world.lock().unwrap().calls.get_mut(b - 1).and_then(|c| c.gate.take());
                if let Some(g) = g {
                    g.send(s["o"].as_str().unwrap().to_string()).ok();
                }
            }
            "Abandon" => tasks[s["r"].as_u64().unwrap() as usize - 1].abort(),
            "Feed" => {
                dl.feed_one(
                    s["k"].as_u64().unwrap(),
                    serde_json::from_value(s["v"].clone()).unwrap(),
                )
                .await
            }
            "Clear" => dl.clear(),
            "Switch" => {
                let on = s["on"].as_bool().unwrap();
                if s["which"] == "all" {
                    dl.enable_all_cache(on)
                } else {
                    dl.enable_cache(on)
                }
            }
            x => panic!("bad step {x}"),
        }
        settle().await;
        let mut w = world.lock().unwrap();
        let loads: Vec<_> = w.calls[w.seen..].iter().map(|c| json!(c.keys)).collect();
        w.seen = w.calls.len();
        let mut done = std::mem::take(&mut w.done);
        done.sort_by_key(|d| d.0);
        let done: Vec<_> = done.into_iter().map(|(r, v)| json!([r, v])).collect();
        out.push(json!({"loads": loads, "done": done, "cache": pairs(dl.get_cached_values())}));
    }
    json!(out)
}

pub fn run(case: &Value) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    rt.block_on(async {
        match case["cache"].as_str().unwrap() {
            "none" => drive(case, NoCache).await,
            "map" => drive(case, HashMapCache::default() as HashMapCache).await,
            _ => drive(case, LruCache::with_capacity(case["cap"].as_u64().unwrap() as usize)).await,
        }
    })
}
