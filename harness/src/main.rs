//! vh: drives the real code under a simulated or a real network and writes down what happened.
//!   vh run IN.ndjson OUT.ndjson     scenarios of protocol operations
//!   vh net IN.ndjson OUT.ndjson DIR scripts over the real network layer (certificates go to DIR)
//!   vh codec IN.ndjson OUT.ndjson   encodings and conversions
#[cfg(feature = "net")]
mod net;
#[cfg(feature = "net")]
mod codec;
use vhcore::{prog, sim};

use std::io::{BufRead, Write};
use std::sync::{
    atomic::{AtomicUsize, Ordering},
    Arc, Mutex,
};
use std::time::{Duration, Instant};

fn dispatch(sc: &prog::Scenario) -> serde_json::Value {
    let r: Option<serde_json::Value> = None;
    #[cfg(feature = "aby3")]
    let r = if sc.proto == "aby3" { vh_aby3_u::run(sc) } else { r };
    #[cfg(feature = "aby3_i")]
    let r = if r.is_none() && sc.proto == "aby3" { vh_aby3_i::run(sc) } else { r };
    #[cfg(feature = "malaby3")]
    let r = if sc.proto == "malaby3" { vh_malaby3_u::run(sc) } else { r };
    #[cfg(feature = "malaby3_i")]
    let r = if r.is_none() && sc.proto == "malaby3" { vh_malaby3_i::run(sc) } else { r };
    #[cfg(feature = "spdzwise")]
    let r = if sc.proto == "spdzwise" { vh_spdzwise_u::run(sc) } else { r };
    #[cfg(feature = "spdzwise_i")]
    let r = if r.is_none() && sc.proto == "spdzwise" { vh_spdzwise_i::run(sc) } else { r };
    #[cfg(feature = "swift3")]
    let r = if sc.proto == "swift3" { vh_swift3_u::run(sc) } else { r };
    #[cfg(feature = "swift3_i")]
    let r = if r.is_none() && sc.proto == "swift3" { vh_swift3_i::run(sc) } else { r };
    r.unwrap_or_else(|| {
        eprintln!("HARNESS: no party type for {} {}", sc.proto, sc.ring);
        std::process::exit(3)
    })
}

struct Slot {
    started: Option<(usize, Instant)>,
}

/// The result of a session that crashed or did not end: nobody got anything.
fn aborted(sc: &prog::Scenario, how: &str) -> serde_json::Value {
    let none = serde_json::json!([{"k":"none"},{"k":"none"},{"k":"none"}]);
    let ev: Vec<serde_json::Value> = sc
        .ops
        .iter()
        .map(|o| {
            let mut e = serde_json::to_value(o).unwrap();
            e["r"] = none.clone();
            e
        })
        .collect();
    serde_json::json!({"id": sc.id, "proto": sc.proto, "ring": sc.ring, "k": 8, "sk": 8, "ev": ev, "tail": none,
        "out": [how, how, how], "deadlock": false, "stuck": [], "fired": 0, "left": [], "tag": sc.tag})
}

fn run_file(inp: &str, out: &str, threads: usize) {
    let limit = Duration::from_secs(std::env::var("VH_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60));
    let f = std::io::BufReader::new(std::fs::File::open(inp).expect("HARNESS: input"));
    let scens: Vec<prog::Scenario> = f
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .enumerate()
        .map(|(i, l)| match serde_json::from_str(&l) {
            Ok(s) => s,
            Err(e) => {
                eprintln!("HARNESS: bad scenario {i}: {e}");
                std::process::exit(3)
            }
        })
        .collect();
    let scens = Arc::new(scens);
    let next = Arc::new(AtomicUsize::new(0));
    let out_f = Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(out).expect("HARNESS: output"))));
    let started = Arc::new(Mutex::new(std::fs::File::create(format!("{out}.started")).expect("HARNESS: output")));
    let slots: Arc<Mutex<Vec<Slot>>> = Arc::new(Mutex::new(vec![]));
    let finished = Arc::new(AtomicUsize::new(0));
    let time = std::env::var("VH_TIME").is_ok();
    let spawn = || {
        let (scens, next, out_f, started, slots, finished) =
            (scens.clone(), next.clone(), out_f.clone(), started.clone(), slots.clone(), finished.clone());
        let me = {
            let mut s = slots.lock().unwrap();
            s.push(Slot { started: None });
            s.len() - 1
        };
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= scens.len() {
                    break;
                }
                let t = Instant::now();
                slots.lock().unwrap()[me].started = Some((i, t));
                writeln!(started.lock().unwrap(), "{i}").unwrap();
                let r = dispatch(&scens[i]);
                if time {
                    eprintln!("{} {:?}", r["id"], t.elapsed());
                }
                {
                    let mut s = slots.lock().unwrap();
                    match s[me].started {
                        Some((j, _)) if j == i => s[me].started = None,
                        _ => break, // given up on
                    }
                    writeln!(out_f.lock().unwrap(), "{}", serde_json::json!([i, r])).unwrap();
                }
                finished.fetch_add(1, Ordering::SeqCst);
            })
            .expect("HARNESS: thread");
    };
    for _ in 0..threads {
        spawn();
    }
    while finished.load(Ordering::SeqCst) < scens.len() {
        std::thread::sleep(Duration::from_millis(5));
        let mut over = vec![];
        for s in slots.lock().unwrap().iter_mut() {
            if let Some((i, t)) = s.started {
                if t.elapsed() > limit {
                    s.started = None;
                    over.push(i);
                }
            }
        }
        for i in over {
            let r = aborted(&scens[i], "hang");
            writeln!(out_f.lock().unwrap(), "{}", serde_json::json!([i, r])).unwrap();
            finished.fetch_add(1, Ordering::SeqCst);
            spawn();
        }
    }
    out_f.lock().unwrap().flush().unwrap();
    std::process::exit(0);
}

fn main() {
    sim::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let threads = std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    match args.get(1).map(|s| s.as_str()) {
        #[cfg(feature = "net")]
        Some("certs") => net::certs(std::path::Path::new(&args[2]), 8),
        Some("run") => run_file(&args[2], &args[3], threads),
        #[cfg(feature = "net")]
        Some("codec") => codec::run_file(&args[2], &args[3]),
        #[cfg(feature = "net")]
        Some("net") => net::run_file(&args[2], &args[3], &args[4], threads),
        _ => {
            eprintln!("usage: vh run IN OUT");
            std::process::exit(3);
        }
    }
}
