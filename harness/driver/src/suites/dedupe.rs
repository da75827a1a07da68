//! P01: the coalescer, one poll at a time.
//! case: {persist, keys: {req: key}, steps: [{a: "poll"|"finish"|"drop", r, v?}]}
//! observation: per poll {ev: [..exec events..], res: "pending"|{ok|err}}
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

use futures_util::task::noop_waker;
use serde_json::{json, Value};
use tailcall::core::data_loader::DedupeResult;

type Fut = Pin<Box<dyn Future<Output = Result<String, String>>>>;

#[derive(Default)]
struct World {
    started: Vec<String>,
    gates: BTreeMap<String, Result<String, String>>,
}

struct Gate(Rc<RefCell<World>>, String);

impl Future for Gate {
    type Output = Result<String, String>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.borrow_mut().gates.remove(&self.1) {
            Some(Err(e)) if e == "panic" => panic!("execution panicked"),
            Some(v) => Poll::Ready(v),
            None => Poll::Pending,
        }
    }
}

pub fn run(case: &Value) -> Value {
    let dd: Rc<DedupeResult<String, String, String>> =
        Rc::new(DedupeResult::new(case["persist"].as_bool().unwrap()));
    let world = Rc::new(RefCell::new(World::default()));
    let mut futs: BTreeMap<String, Fut> = BTreeMap::new();
    let waker = noop_waker();
    let mut out = vec![];
    for step in case["steps"].as_array().unwrap() {
        let r = step["r"].as_str().unwrap().to_string();
        match step["a"].as_str().unwrap() {
            "Poll" => {
                let fut = futs.entry(r.clone()).or_insert_with(|| {
                    let key = case["keys"][&r].as_str().unwrap().to_string();
                    let (dd, world, r) = (dd.clone(), world.clone(), r.clone());
                    Box::pin(async move {
                        dd.dedupe(&key, || {
                            world.borrow_mut().started.push(r.clone());
                            Gate(world.clone(), r.clone())
                        })
                        .await
                    })
                });
                // polled a few times: idempotent, and indifferent to how many suspension
                // points the implementation takes to get to the same place
                let polled = catch_unwind(AssertUnwindSafe(|| {
                    let mut p = Poll::Pending;
                    for _ in 0..3 {
                        p = fut.as_mut().poll(&mut Context::from_waker(&waker));
                        if p.is_ready() {
                            break;
                        }
                    }
                    p
                }));
                let res = match polled {
                    Ok(Poll::Pending) => json!("pending"),
                    Ok(Poll::Ready(Ok(v))) => json!({ "ok": v }),
                    Ok(Poll::Ready(Err(v))) => json!({ "err": v }),
                    Err(_) => json!("panic"),
                };
                if res != json!("pending") {
                    futs.remove(&r);
                }
                let started = std::mem::take(&mut world.borrow_mut().started);
                out.push(json!({"started": started, "res": res}));
            }
            "Finish" => {
                let v = match step["v"].as_str().unwrap() {
                    "ok" => Ok(r.clone()),
                    "err" => Err(r.clone()),
                    _ => Err("panic".to_string()),
                };
                world.borrow_mut().gates.insert(r, v);
                out.push(json!({}));
            }
            "Drop" => {
                futs.remove(&r);
                out.push(json!({}));
            }
            other => panic!("bad step {other}"),
        }
    }
    json!(out)
}

/// P01: the coalescer under real threads; records an event trace.
/// case: {persist, seed, tasks: [{r, key, delay, dur, out, abort?}]} (all times in microseconds)
pub fn run_mt(case: &Value) -> Value {
    use std::sync::{Arc, Mutex};
    use std::time::Duration;
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(4)
        .enable_time()
        .build()
        .unwrap();
    type Log = Arc<Mutex<Vec<Value>>>;
    struct Guard(Log, String, bool);
    impl Drop for Guard {
        fn drop(&mut self) {
            if !self.2 {
                self.0.lock().unwrap().push(json!({"e": "gone", "r": self.1}));
            }
        }
    }
    fn spin(us: u64) {
        let t = std::time::Instant::now();
        while t.elapsed() < Duration::from_micros(us) {
            std::hint::spin_loop();
        }
    }
    let log: Log = Default::default();
    let dd: Arc<DedupeResult<String, String, String>> =
        Arc::new(DedupeResult::new(case["persist"].as_bool().unwrap()));
    let out = rt.block_on(async {
        let mut hs = vec![];
        for t in case["tasks"].as_array().unwrap().clone() {
            let (log, dd) = (log.clone(), dd.clone());
            let abort = t["abort"].as_u64();
            let h = tokio::spawn(async move {
                let r = t["r"].as_str().unwrap().to_string();
                let key = t["key"].as_str().unwrap().to_string();
                spin(t["delay"].as_u64().unwrap());
                log.lock().unwrap().push(json!({"e": "call", "r": r}));
                // abandoned while waiting: logged by the outer guard; while executing: by the inner one,
                // which goes first
                let running = Arc::new(std::sync::atomic::AtomicBool::new(false));
                struct Outer(Log, String, Arc<std::sync::atomic::AtomicBool>, bool);
                impl Drop for Outer {
                    fn drop(&mut self) {
                        if !self.3 && !self.2.load(std::sync::atomic::Ordering::SeqCst) {
                            self.0.lock().unwrap().push(json!({"e": "gone", "r": self.1}));
                        }
                    }
                }
                let mut outer = Outer(log.clone(), r.clone(), running.clone(), false);
                let res = dd
                    .dedupe(&key, || {
                        running.store(true, std::sync::atomic::Ordering::SeqCst);
                        log.lock().unwrap().push(json!({"e": "start", "r": r}));
                        let g = Guard(log.clone(), r.clone(), false);
                        let (log, t, r) = (log.clone(), t.clone(), r.clone());
                        async move {
                            let mut g = g;
                            let dur = t["dur"].as_u64().unwrap();
                            for _ in 0..dur {
                                tokio::task::yield_now().await;
                            }
                            let ok = t["out"].as_str().unwrap() == "ok";
                            log.lock()
                                .unwrap()
                                .push(json!({"e": "finish", "r": r, "v": t["out"]}));
                            g.2 = true;
                            if ok {
                                Ok(r)
                            } else {
                                Err(r)
                            }
                        }
                    })
                    .await;
                outer.3 = true;
                let (v, by) = match res {
                    Ok(v) => ("ok", v),
                    Err(v) => ("err", v),
                };
                log.lock().unwrap().push(json!({"e": "ret", "r": r, "by": by, "v": v}));
            });
            hs.push((h, abort));
        }
        let mut ab = vec![];
        for (i, (h, abort)) in hs.iter().enumerate() {
            if let Some(a) = abort {
                ab.push((*a, i));
                let _ = h;
            }
        }
        ab.sort();
        let t0 = std::time::Instant::now();
        for (a, i) in ab {
            while t0.elapsed() < Duration::from_micros(a) {
                tokio::task::yield_now().await;
            }
            hs[i].0.abort();
        }
        let mut hang = false;
        for (h, _) in hs {
            if tokio::time::timeout(Duration::from_secs(20), h).await.is_err() {
                hang = true;
            }
        }
        hang
    });
    rt.shutdown_background();
    if out {
        return json!({"hang": true, "log": *log.lock().unwrap()});
    }
    let l = log.lock().unwrap().clone();
    json!(l)
}
