//! Differential evaluation of the specification functions against the real crate.
mod gen;
mod rt;
mod props;
mod bm;
mod general;
#[allow(unused, clippy::all)]
mod oracle { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/oracle.rs")); }
mod conform;

use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case { pub cfg: String, pub a: String, pub b: String }
static DIED: Mutex<String> = Mutex::new(String::new());
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// Runs the real code; a panic is a value.
pub fn real<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone())))
}
fn eval(p: &props::Prop, c: &Case) -> Result<String, String> {
    let r = catch_unwind(AssertUnwindSafe(|| (p.eval)(c))).unwrap_or_else(|_| Err(format!("harness panic: {}", LAST_PANIC.with(|l| l.borrow().clone()))));
    rt::clear_arena();
    r
}
fn shrink(p: &props::Prop, c: Case) -> Case {
    let mut c = c;
    let deadline = Instant::now() + Duration::from_secs(10);
    if eval(p, &Case { b: String::new(), ..c.clone() }).is_err() { c.b = String::new() }
    for field in 0..2 {
        let mut step = 64;
        while step > 0 {
            let cs: Vec<char> = if field == 0 { c.a.chars().collect() } else { c.b.chars().collect() };
            let mut i = 0; let mut done = false;
            while i < cs.len() && Instant::now() < deadline {
                let j = (i + step).min(cs.len());
                let s: String = cs[..i].iter().chain(&cs[j..]).collect();
                let n = if field == 0 { Case { a: s, ..c.clone() } } else { Case { b: s, ..c.clone() } };
                if matches!(eval(p, &n), Err(e) if !e.starts_with("harness panic")) { c = n; done = true; break }
                i += step
            }
            if !done { step /= 2 }
            if Instant::now() >= deadline { return c }
        }
    }
    c
}
fn main() {
    std::panic::set_hook(Box::new(|i| { let s = i.to_string(); *DIED.lock().unwrap() = s.clone(); LAST_PANIC.with(|l| *l.borrow_mut() = s) }));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let repo = get("--repo").unwrap_or("/repo".into());
    match args.get(1).map(|s| s.as_str()) {
        Some("conform") => { let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1); let secs = get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(5.0); std::thread::Builder::new().stack_size(1 << 28).spawn(move || conform::run(seed, &repo, secs)).unwrap().join().ok(); }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let p = props::find(j["property"].as_str().unwrap()).expect("property");
            let c = Case { cfg: j["cfg"].as_str().unwrap_or("").into(), a: j["a"].as_str().unwrap_or("").into(), b: j["b"].as_str().unwrap_or("").into() };
            let t = std::thread::Builder::new().stack_size(1 << 30).spawn(move || eval(&p, &c)).unwrap();
            let t0 = Instant::now();
            while !t.is_finished() { if t0.elapsed() > Duration::from_secs(30) { println!("FAILS: no answer after 30 s"); std::process::exit(1) } std::thread::sleep(Duration::from_millis(20)) }
            match t.join().unwrap() { Ok(o) => println!("HOLDS: {o}"), Err(e) => { println!("FAILS: {e}"); std::process::exit(1) } }
        }
        Some("run") => {
            let id = get("--property").unwrap();
            let secs: f64 = get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(5.0);
            let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let out = get("--out").unwrap();
            let p = Arc::new(props::find(&id).unwrap_or_else(|| { eprintln!("no such property"); std::process::exit(3) }));
            let dict = Arc::new(gen::Dict::load(&repo, p.srcs));
            let nthreads = 8;
            let ctr = Arc::new(AtomicU64::new(0));
            let stop = Arc::new(AtomicBool::new(false));
            let evals = Arc::new(AtomicU64::new(0));
            let distinct = Arc::new(Mutex::new(HashSet::<u64>::new()));
            let samples = Arc::new(Mutex::new(Vec::<serde_json::Value>::new()));
            let fails = Arc::new(Mutex::new(Vec::<(Case, String)>::new()));
            let now: Arc<Vec<Mutex<Option<(Instant, Case)>>>> = Arc::new((0..nthreads).map(|_| Mutex::new(None)).collect());
            let t0 = Instant::now();
            let mut hs = vec![];
            for t in 0..nthreads {
                let (p, dict, ctr, stop, evals, distinct, samples, fails, now) = (p.clone(), dict.clone(), ctr.clone(), stop.clone(), evals.clone(), distinct.clone(), samples.clone(), fails.clone(), now.clone());
                hs.push(std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
                    let g = gen::Gen { d: &dict, seed, alpha: p.alpha.chars().collect(), depth: p.depth };
                    let mut local: HashSet<u64> = HashSet::new();
                    while !stop.load(Ordering::Relaxed) {
                        let base = ctr.fetch_add(64, Ordering::Relaxed);
                        for i in base..base + 64 {
                            if stop.load(Ordering::Relaxed) { break }
                            let c = (p.case)(&g, i);
                            *now[t].lock().unwrap() = Some((Instant::now(), c.clone()));
                            let r = eval(&p, &c);
                            *now[t].lock().unwrap() = None;
                            evals.fetch_add(1, Ordering::Relaxed);
                            match r {
                                Ok(o) => {
                                    if local.len() < 400_000 && !o.is_empty() { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); (&c, &o).hash(&mut h); local.insert(h.finish()); }
                                    if i % 9973 == 17 { let mut s = samples.lock().unwrap(); if s.len() < 12 { s.push(serde_json::json!({"cfg": c.cfg, "a": c.a, "b": c.b, "out": o})) } }
                                }
                                Err(e) => { let mut f = fails.lock().unwrap(); if f.len() < 20 { f.push((c, e)) } if f.len() >= 20 { stop.store(true, Ordering::Relaxed) } }
                            }
                        }
                    }
                    distinct.lock().unwrap().extend(local);
                }).unwrap());
            }
            let mut hang = None;
            while t0.elapsed().as_secs_f64() < secs && !stop.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                for n in now.iter() { if let Some((at, c)) = &*n.lock().unwrap() { if at.elapsed() > Duration::from_secs(20) { hang = Some(c.clone()) } } }
                if hang.is_some() { break }
                if fails.lock().map(|f| !f.is_empty()).unwrap_or(false) && t0.elapsed().as_secs_f64() > secs.min(3.0) { break }
            }
            stop.store(true, Ordering::Relaxed);
            let j0 = Instant::now();
            while hang.is_none() && hs.iter().any(|h| !h.is_finished()) {
                std::thread::sleep(Duration::from_millis(20));
                if j0.elapsed() > Duration::from_secs(25) { for n in now.iter() { if let Some((_, c)) = &*n.lock().unwrap() { hang = Some(c.clone()) } } break }
            }
            if hang.is_none() { for h in hs { if h.join().is_err() { eprintln!("a worker died: {}", DIED.lock().unwrap()); std::process::exit(3) } } }
            let mut failures = vec![];
            if let Some(c) = hang { failures.push(serde_json::json!({"property": id, "cfg": c.cfg, "a": c.a, "b": c.b, "what": "no answer after 20 s"})) }
            let mut list = fails.lock().unwrap().clone();
            list.sort_by_key(|(c, _)| c.a.len() + c.b.len());
            for (c, e) in list.into_iter().take(5) {
                if e.starts_with("harness panic") { failures.push(serde_json::json!({"property": id, "cfg": c.cfg, "a": c.a, "b": c.b, "what": e})); continue }
                let p2 = p.clone();
                let (c2, e2) = std::thread::Builder::new().stack_size(1 << 30).spawn(move || { let s = shrink(&p2, c); let e = eval(&p2, &s).err().unwrap_or(e); (s, e) }).unwrap().join().unwrap();
                let v = serde_json::json!({"property": id, "cfg": c2.cfg, "a": c2.a, "b": c2.b, "what": e2});
                if !failures.contains(&v) { failures.push(v) }
            }
            let n = ctr.load(Ordering::Relaxed);
            let g = gen::Gen { d: &dict, seed, alpha: p.alpha.chars().collect(), depth: p.depth };
            let v = serde_json::json!({"property": id, "evaluations": evals.load(Ordering::Relaxed), "distinct": distinct.lock().unwrap().len(), "exhaustive_total": g.n_exhaustive(), "context_total": g.n_context(), "exhaustive_done": n.min(g.n_exhaustive()), "context_done": n.saturating_sub(g.n_exhaustive()).min(g.n_context()), "dictionary": dict.toks.len(), "samples": *samples.lock().unwrap(), "failures": failures, "seconds": t0.elapsed().as_secs_f64()});
            std::fs::write(out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
            std::process::exit(0);
        }
        _ => { eprintln!("usage: harness run|replay|conform"); std::process::exit(3) }
    }
}
