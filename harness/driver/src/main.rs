//! Conformance driver: replays behaviours generated from the TLA+ specifications in
//! /verif/spec on the real tailcall code and reports what it observed.
//!
//! driver <suite> <cases.json> <out.json> [threads]
//!
//! `cases.json` is a JSON array; each case is handed to the suite's function on a fresh
//! thread-local world, and the observation (or `{"panic": ..}` / `{"hang": true}`: outcomes
//! of the code under test, not errors of the driver) is written at the same index.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

mod suites;
mod tag;
mod world;

pub type Suite = fn(&Value) -> Value;

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let suite = suites::find(&args[1]).unwrap_or_else(|| {
        eprintln!("unknown suite {}", args[1]);
        std::process::exit(2)
    });
    let cases: Vec<Value> =
        serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let threads: usize = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(8);
    std::panic::set_hook(Box::new(|_| {}));
    // events are formatted, as in a running server, and thrown away
    tracing_subscriber::fmt()
        .with_max_level(tracing_subscriber::filter::LevelFilter::INFO)
        .with_writer(std::io::sink)
        .init();

    let cases = Arc::new(cases);
    let next = Arc::new(AtomicUsize::new(0));
    let n = cases.len();
    let (tx, rx) = mpsc::channel::<(usize, Value)>();
    let (stx, srx) = mpsc::channel::<(usize, usize)>();
    let spawn = |id: usize| {
        let (cases, next, tx, stx) = (cases.clone(), next.clone(), tx.clone(), stx.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= cases.len() {
                    break;
                }
                let _ = stx.send((id, i));
                let out = catch_unwind(AssertUnwindSafe(|| suite(&cases[i])))
                    .unwrap_or_else(|e| json!({ "panic": panic_text(e) }));
                if tx.send((i, out)).is_err() {
                    break;
                }
            })
            .unwrap();
    };
    for id in 0..threads {
        spawn(id);
    }
    // a case that neither returns nor panics within this much real time is reported as a hang
    let limit = Duration::from_secs(
        std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60),
    );
    let mut out: Vec<Option<Value>> = vec![None; n];
    let mut running: std::collections::HashMap<usize, (usize, Instant)> = Default::default();
    let mut done = 0;
    let mut next_id = threads;
    while done < n {
        let msg = rx.recv_timeout(Duration::from_millis(200));
        while let Ok((id, i)) = srx.try_recv() {
            running.insert(id, (i, Instant::now()));
        }
        if let Ok((i, v)) = msg {
            if out[i].is_none() {
                out[i] = Some(v);
                done += 1;
            }
        }
        let hung: Vec<usize> = running
            .iter()
            .filter(|(_, (i, t))| out[*i].is_none() && t.elapsed() > limit)
            .map(|(id, _)| *id)
            .collect();
        for id in hung {
            let (i, _) = running.remove(&id).unwrap();
            if out[i].is_none() {
                out[i] = Some(json!({"hang": true}));
                done += 1;
            }
            spawn(next_id);
            next_id += 1;
        }
    }
    let out: Vec<Value> = out.into_iter().map(|v| v.unwrap()).collect();
    std::fs::write(&args[3], serde_json::to_string(&out).unwrap()).unwrap();
    // threads that hang are abandoned
    std::process::exit(0);
}
