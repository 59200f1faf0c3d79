//! Deterministic simulation of whole Ethersync networks around the real document actors.
mod profiles;
mod text;
mod world;

use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::sync::{atomic::{AtomicBool, AtomicUsize, Ordering}, Arc, Mutex};
use std::time::{Duration, Instant};
use world::{Stats, Violation, World, LAST_PANIC};

struct Args {
    profiles: Vec<String>,
    seed: u64,
    histories: usize,
    time_limit: f64,
    threads: usize,
    out: PathBuf,
    scratch: PathBuf,
    replay_dir: Option<PathBuf>,
    only: Option<usize>,
    keep_going: bool,
}

fn args() -> Args {
    let mut a = Args {
        profiles: vec!["mixed".into()],
        seed: 1,
        histories: 100,
        time_limit: 60.0,
        threads: 8,
        out: "/dev/stdout".into(),
        scratch: std::env::temp_dir(),
        replay_dir: None,
        only: None,
        keep_going: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("missing value");
        match k.as_str() {
            "--profiles" => a.profiles = v().split(',').map(|s| s.to_string()).collect(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--histories" => a.histories = v().parse().unwrap(),
            "--time-limit" => a.time_limit = v().parse().unwrap(),
            "--threads" => a.threads = v().parse().unwrap(),
            "--out" => a.out = v().into(),
            "--scratch" => a.scratch = v().into(),
            "--replay-dir" => a.replay_dir = Some(v().into()),
            "--only" => a.only = Some(v().parse().unwrap()),
            "--keep-going" => a.keep_going = true,
            other => panic!("unknown argument {other}"),
        }
    }
    a
}

struct Outcome {
    violation: Option<Violation>,
    trace: Vec<String>,
    st: Stats,
    hash: u64,
    copies: (u64, u64),
}

fn one_history(profile: &str, seed: u64, scratch: PathBuf) -> Outcome {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let _ = std::fs::create_dir_all(&scratch);
    let p = profiles::profile(profile).expect("known profile");
    let mut out = Outcome { violation: None, trace: vec![], st: Stats::default(), hash: 0, copies: (0, 0) };
    rt.block_on(async {
        let mut world = match World::new(p, seed, scratch.clone()).await {
            Ok(w) => w,
            Err(v) => {
                out.violation = Some(v);
                return;
            }
        };
        let r = {
            let fut = async {
                if profile == "restarts" {
                    world.run_restarts().await
                } else {
                    world.run().await
                }
            };
            futures::FutureExt::catch_unwind(AssertUnwindSafe(fut)).await
        };
        match r {
            Ok(Ok(())) => {}
            Ok(Err(v)) => out.violation = Some(v),
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                let kind = if m.contains("/repo/") || m.contains("daemon/src") || m.contains("killed") { "crash" } else { "harness" };
                out.violation = Some(Violation { kind, detail: m });
            }
        }
        if profile == "conflicts" {
            out.copies.0 = world.copies().values().filter(|v| v.len() > 1).count() as u64;
        }
        out.hash = world.sched_hash();
        out.st = world.st.clone();
        out.trace = std::mem::take(&mut world.trace);
        world.cleanup();
    });
    drop(rt);
    let _ = std::fs::remove_dir_all(&scratch);
    out
}

fn main() {
    let a = args();
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(info.to_string());
            }
        });
    }));
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let total: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let hashes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let done = AtomicUsize::new(0);
    let violations: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let inconclusive: Mutex<Vec<String>> = Mutex::new(vec![]);
    let per_profile: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let root = a.scratch.join(format!("vsim-{}", std::process::id()));
    std::fs::create_dir_all(&root).unwrap();
    // Seeds are drawn up front, so that a history does not depend on the number of threads.
    let mut master = StdRng::seed_from_u64(a.seed);
    let seeds: Arc<Vec<u64>> = Arc::new((0..a.histories).map(|_| master.gen()).collect());

    std::thread::scope(|s| {
        for _ in 0..a.threads {
            s.spawn(|| loop {
                let k = match a.only {
                    Some(k) => {
                        if next.fetch_add(1, Ordering::SeqCst) > 0 {
                            break;
                        }
                        k
                    }
                    None => next.fetch_add(1, Ordering::SeqCst),
                };
                if k >= a.histories || stop.load(Ordering::SeqCst) || t0.elapsed() > Duration::from_secs_f64(a.time_limit) {
                    break;
                }
                let prof = a.profiles[k % a.profiles.len()].clone();
                let o = one_history(&prof, seeds[k], root.join(format!("h{k}")));
                done.fetch_add(1, Ordering::SeqCst);
                *per_profile.lock().unwrap().entry(prof.clone()).or_default() += 1;
                hashes.lock().unwrap().insert(o.hash);
                {
                    let mut t = total.lock().unwrap();
                    for (name, v) in o.st.list() {
                        *t.entry(name.to_string()).or_default() += v;
                    }
                    *t.entry("names_created_by_several_peers".into()).or_default() += o.copies.0;
                }
                if let Some(v) = o.violation {
                    if v.kind == "harness" {
                        inconclusive.lock().unwrap().push(format!("history {k} ({prof}): {}", v.detail));
                    } else {
                        violations.lock().unwrap().push(json!({
                            "history": k, "profile": prof, "history_seed": seeds[k], "kind": v.kind, "detail": v.detail, "trace": o.trace,
                        }));
                        if !a.keep_going {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                } else {
                    let mut s = samples.lock().unwrap();
                    if s.len() < 6 {
                        let n = o.trace.len();
                        s.push(json!({"history": k, "profile": prof, "steps": o.st.steps, "events": n,
                            "excerpt": o.trace.iter().take(4).chain(o.trace.iter().skip(n.saturating_sub(3).max(4))).map(|t| t.chars().take(240).collect::<String>()).collect::<Vec<_>>()}));
                    }
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&root);
    let violations = violations.into_inner().unwrap();
    let out = json!({
        "seed": a.seed,
        "profiles": a.profiles,
        "histories": done.into_inner(),
        "distinct_schedules": hashes.into_inner().unwrap().len(),
        "per_profile": per_profile.into_inner().unwrap(),
        "counters": total.into_inner().unwrap(),
        "samples": samples.into_inner().unwrap(),
        "inconclusive": inconclusive.into_inner().unwrap(),
        "violations": violations,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let _ = a.replay_dir;
    std::fs::write(&a.out, serde_json::to_string_pretty(&out).unwrap() + "\n").unwrap();
}
