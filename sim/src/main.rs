//! vpsim: deterministic simulation of openid4vp with fault injection.
//!
//!   vpsim check PROPERTY TIER SEED VERIF_DIR     searches seeds; writes evidence; exit 0 or 1
//!   vpsim replay FILE                            runs one recorded execution again
//!   vpsim trace PROPERTY SEED INDEX              prints one run of a search

mod attack;
mod core;
mod gen;
mod hostile;
mod http;
mod ident;
mod intercept;
mod meta;
mod net;
mod nonce;
mod parallel;
#[cfg(feature = "jwe")]
mod seal;
mod sim;
mod store;
mod svc;
mod threads;
mod wallet;
mod world;

use crate::core::*;
use serde_json::{json, Value as Json};
use std::{
    collections::{BTreeMap, HashSet},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

struct Out {
    viol: Vec<Violation>,
    rec: Vec<u32>,
    hash: u64,
    events: u64,
    steps: u64,
    now: u64,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    trace: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    World,
    Threads,
    Http,
    Parallel,
}

fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.rotate_left(32)).next()
}
fn prop_no(prop: &str) -> u64 {
    prop[1..].parse().unwrap_or(0)
}
fn plan(prop: &str, seed: u64, i: u64) -> (Kind, u64) {
    let kind = match prop {
        "C13" if i % 10 < 8 => Kind::Threads,
        "C18" => Kind::Http,
        "C16" if i % 4 == 3 => Kind::Parallel,
        "C08" | "C09" if i % 16 == 14 => Kind::Http,
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C09" | "C10" | "C11" | "C15" | "C16" | "C22" if i % 16 == 7 => Kind::Parallel,
        _ => Kind::World,
    };
    (kind, mix(mix(seed, prop_no(prop)), i))
}

/// One run, on a thread of its own so that nothing is left over from another.
fn one(prop: &str, kind: Kind, src: Source, rnd: u64, keep: bool) -> Out {
    // What is only set up once in a process must not count as part of any run.
    static WARM: [std::sync::Once; 2] = [const { std::sync::Once::new() }; 2];
    if matches!(kind, Kind::Threads | Kind::Parallel) {
        WARM[(kind == Kind::Parallel) as usize].call_once(|| {
            for s in 1..=5 {
                one_run(prop, kind, from_seed(s), s, false);
            }
        });
    }
    one_run(prop, kind, src, rnd, keep)
}
fn one_run(prop: &str, kind: Kind, src: Source, rnd: u64, keep: bool) -> Out {
    let prop = prop.to_string();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            intercept::seed_thread(rnd);
            ctx_install(src, keep);
            let r = std::panic::catch_unwind(|| match kind {
                Kind::World => sim::run_world(&prop),
                Kind::Threads => threads::run_threads(),
                Kind::Http => http::run_http(),
                Kind::Parallel => parallel::run_parallel(&prop),
            });
            if let Err(p) = r {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let props: &[&'static str] = match kind {
                    Kind::World => &["C15", "C11"],
                    Kind::Threads => &["C13"],
                    Kind::Http => &["C18"],
                    Kind::Parallel => &["C15"],
                };
                violation(props, "panic-outside", format!("panic outside of any task: {msg}"));
            }
            let c = ctx_take();
            Out {
                viol: c.viol,
                rec: c.rec,
                hash: c.hash,
                events: c.events,
                steps: c.steps,
                now: c.now,
                faults: c.faults,
                probes: c.probes,
                trace: c.trace,
            }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| Out {
            viol: vec![],
            rec: vec![],
            hash: 0,
            events: 0,
            steps: 0,
            now: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            trace: vec!["run thread died".into()],
        })
}
fn from_seed(seed: u64) -> Source {
    Source::Seed(Rng::new(seed))
}
fn from_list(l: &[u32]) -> Source {
    Source::List(l.iter().copied().collect())
}

fn hit<'a>(o: &'a Out, prop: &str, known: &[(String, String)]) -> Option<&'a Violation> {
    o.viol.iter().find(|v| v.props.contains(&prop) && !known.iter().any(|k| k.0 == prop && k.1 == v.key))
}

/// Shrinks a choice list while the same violation of the same property stays.
fn minimise(prop: &str, kind: Kind, rnd: u64, mut list: Vec<u32>, key: &str, limit: Duration) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut ok = |l: &[u32]| -> Option<usize> {
        runs += 1;
        let o = one(prop, kind, from_list(l), rnd, false);
        o.viol.iter().any(|v| v.key == key && v.props.contains(&prop)).then_some(o.rec.len())
    };
    let over = || t0.elapsed() > limit;
    // A shorter list is padded with zeros: find the shortest prefix that still fails.
    let (mut lo, mut hi) = (0usize, list.len());
    while lo < hi && !over() {
        let mid = (lo + hi) / 2;
        if ok(&list[..mid]).is_some() {
            hi = mid
        } else {
            lo = mid + 1
        }
    }
    if ok(&list[..hi.min(list.len())]).is_some() {
        list.truncate(hi);
    }
    let mut changed = true;
    while changed && !over() {
        changed = false;
        let mut size = (list.len() / 2).max(1);
        while size >= 1 && !over() {
            let mut i = 0;
            while i < list.len() && !over() {
                let end = (i + size).min(list.len());
                // Remove the chunk, or else zero it.
                let mut cut = list.clone();
                cut.drain(i..end);
                if ok(&cut).is_some() {
                    list = cut;
                    changed = true;
                    continue;
                }
                if list[i..end].iter().any(|x| *x != 0) {
                    let mut z = list.clone();
                    z[i..end].iter_mut().for_each(|x| *x = 0);
                    if ok(&z).is_some() {
                        list = z;
                        changed = true;
                    }
                }
                i = end;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Smaller values.
        for i in 0..list.len() {
            if over() {
                break;
            }
            while list[i] > 1 && !over() {
                let mut z = list.clone();
                z[i] /= 2;
                if ok(&z).is_some() {
                    list = z;
                    changed = true;
                } else {
                    break;
                }
            }
        }
    }
    (list, runs)
}

fn known_findings(dir: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{dir}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let mut p = l.split_whitespace();
            Some((p.next()?.to_string(), p.next()?.strip_prefix("key=")?.to_string()))
        })
        .collect()
}

fn check(prop: &str, tier: &str, seed: u64, dir: &str) -> i32 {
    let t0 = Instant::now();
    let known = known_findings(dir);
    let (runs, wall) = match (tier, prop) {
        ("thorough", "C13") => (2_000_000, 700),
        ("thorough", _) => (400_000, 700),
        (_, "C13" | "C24") => (QUICK_RUNS * 3, 90),
        (_, "C16") => (QUICK_RUNS * 3 / 2, 100),
        // Where something rare may be behind a violation, longer than elsewhere.
        (_, "C02" | "C05" | "C06" | "C14" | "C15" | "C17") => (QUICK_RUNS, 90),
        _ => (QUICK_RUNS, 60),
    };
    let runs = std::env::var("VPSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(runs);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let show = std::env::var("VPSIM_SHOW").ok();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let active = AtomicU64::new(workers as u64);
    let slots: &'static [AtomicU64] = &shared_slots()[..workers];
    struct Acc {
        runs: u64,
        hashes: HashSet<u64>,
        faults: BTreeMap<&'static str, u64>,
        probes: BTreeMap<&'static str, u64>,
        sim_ms: u64,
        steps: u64,
        events: u64,
        mismatches: u64,
        rechecked: u64,
        samples: Vec<Json>,
        found: Option<(u64, Vec<u32>, Violation)>,
        known_hits: BTreeMap<String, String>,
        others: BTreeMap<String, u64>,
    }
    let acc = Mutex::new(Acc {
        runs: 0,
        hashes: HashSet::new(),
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        sim_ms: 0,
        steps: 0,
        events: 0,
        mismatches: 0,
        rechecked: 0,
        samples: vec![],
        found: None,
        known_hits: BTreeMap::new(),
        others: BTreeMap::new(),
    });
    std::thread::scope(|s| {
        // A run takes a fraction of a second; one that does not come back is blocked inside the library.
        s.spawn(|| loop {
            std::thread::sleep(Duration::from_millis(50));
            if active.load(Ordering::Relaxed) == 0 {
                return;
            }
            for slot in slots {
                let v = slot.load(Ordering::Relaxed);
                if v == 0 || t0.elapsed().as_secs() < (v >> 32) + BLOCKED_S {
                    continue;
                }
                std::process::exit(blocked(prop, tier, seed, (v & 0xffff_ffff) - 1, dir, t0.elapsed().as_secs_f64()));
            }
        });
        for slot in slots {
            let (next, stop, acc, known, active, show) = (&next, &stop, &acc, &known, &active, &show);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= runs || stop.load(Ordering::Relaxed) || t0.elapsed().as_secs() >= wall {
                    active.fetch_sub(1, Ordering::Relaxed);
                    return;
                }
                slot.store((t0.elapsed().as_secs() << 32) | (i + 1), Ordering::Relaxed);
                let (kind, rs) = plan(prop, seed, i);
                let o = one(prop, kind, from_seed(rs), rs, false);
                // The same choices have to give the same execution, now and then verified.
                let mut bad = None;
                if i < 8 || i % 251 == 0 {
                    let again = one(prop, kind, from_list(&o.rec), rs, false);
                    bad = Some(again.hash != o.hash || again.viol.len() != o.viol.len());
                }
                slot.store(0, Ordering::Relaxed);
                let mut a = acc.lock().unwrap();
                a.runs += 1;
                if let Some(b) = bad {
                    a.rechecked += 1;
                    a.mismatches += b as u64;
                }
                a.sim_ms += o.now;
                a.steps += o.steps;
                a.events += o.events;
                for (k, v) in &o.faults {
                    *a.faults.entry(k).or_insert(0) += v;
                }
                for (k, v) in &o.probes {
                    *a.probes.entry(k).or_insert(0) += v;
                }
                if !o.faults.is_empty() && o.events > 3 {
                    a.hashes.insert(o.hash);
                }
                if a.samples.len() < 5 && !o.faults.is_empty() {
                    a.samples.push(json!({
                        "run": i, "run_seed": rs, "kind": format!("{kind:?}"), "choices": o.rec.len(), "steps": o.steps,
                        "events": o.events, "simulated_ms": o.now, "schedule_hash": format!("{:016x}", o.hash),
                        "faults": o.faults, "observed": o.probes,
                    }));
                }
                for v in &o.viol {
                    if v.props.contains(&prop) {
                        if known.iter().any(|k| k.0 == prop && k.1 == v.key) {
                            a.known_hits.entry(v.key.clone()).or_insert(v.msg.clone());
                        }
                    } else {
                        if show.as_ref().map(|k| *k == v.key).unwrap_or(false) {
                            println!("run {i}: {:?} {}: {}", v.props, v.key, v.msg);
                        }
                        *a.others.entry(format!("{} {}", v.props.join(","), v.key)).or_insert(0) += 1;
                    }
                }
                if let Some(v) = hit(&o, prop, known) {
                    stop.store(true, Ordering::Relaxed);
                    if a.found.as_ref().map(|f| i < f.0).unwrap_or(true) {
                        a.found = Some((i, o.rec.clone(), v.clone()));
                    }
                }
            });
        }
    });
    let a = acc.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut viols = vec![];
    if let Some((i, rec, v)) = &a.found {
        code = 1;
        let (kind, rs) = plan(prop, seed, *i);
        let limit = Duration::from_secs(if tier == "thorough" { 60 } else { 20 });
        let (list, tried) = minimise(prop, kind, rs, rec.clone(), &v.key, limit);
        let mut list = list;
        let mut o = one(prop, kind, from_list(&list), rs, true);
        if !o.viol.iter().any(|x| x.key == v.key && x.props.contains(&prop)) {
            list = rec.clone();
            o = one(prop, kind, from_list(&list), rs, true);
        }
        let fin = o.viol.iter().find(|x| x.key == v.key && x.props.contains(&prop)).unwrap_or(v);
        let path = format!("{dir}/replays/{prop}-{}-{i}.json", v.key);
        let replay = json!({
            "property": prop, "kind": format!("{kind:?}"), "seed": seed, "run": i, "run_seed": rs.to_string(),
            "violation": {"key": fin.key, "message": fin.msg, "at_ms": fin.at_ms, "properties": fin.props},
            "schedule_hash": format!("{:016x}", o.hash),
            "choices_before_minimising": rec.len(), "minimising_runs": tried,
            "choices": list, "faults": o.faults, "trace": o.trace,
        });
        std::fs::create_dir_all(format!("{dir}/replays")).ok();
        std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap()).ok();
        for l in o.trace.iter().rev().take(40).collect::<Vec<_>>().into_iter().rev() {
            println!("  {l}");
        }
        println!("{}: {}", fin.key, fin.msg);
        println!("seed={seed} run={i} choices={} (minimised from {} in {tried} runs)", list.len(), rec.len());
        println!("VIOLATION property={prop} replay={path}");
        viols.push(json!({"key": fin.key, "message": fin.msg, "replay": path, "seed": seed, "run": i}));
    }
    for (k, m) in &a.known_hits {
        println!("KNOWN-FINDING: property={prop} {k}: {m}");
    }
    let per_hour = (a.runs as f64 / search_s * 3600.0) as u64;
    let threads_run = prop == "C13";
    let ev = json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.hashes.len(),
            "rule": "one evaluation is one whole simulated execution from its own seed; it counts as distinct and non-trivial \
                     if at least one injected fault really fired in it and the hash over its complete schedule (task or thread \
                     chosen at every step, every logical event, every fault) differs from that of every other execution",
            "samples": a.samples,
            "simulated_runs_per_hour": per_hour,
            "simulated_seconds": a.sim_ms as f64 / 1000.0,
            "scheduler_steps": a.steps,
            "logged_events": a.events,
            "faults_injected": a.faults,
            "situations_reached": a.probes,
            "executions_repeated_from_their_choices": a.rechecked,
            "repetitions_that_differed": a.mismatches,
            "violations_of_other_properties_seen": if prop == "C24" { json!("not judged: the other oracles assume honest messages") } else { json!(a.others) },
            "real_components": if prop == "C18" { json!([
                "openid4vp::core::util::ReqwestClient with reqwest, hyper, h1 connection pool, tokio (current-thread runtime, I/O driver, timers)",
                "openid4vp::wallet::Wallet (validate_request, submit_response) on top of it"
            ]) } else if prop == "C17" { json!([
                "openid4vp::core::jwe (key selection, builder, encrypted responses)",
                "openid4vp::verifier (Verifier, builders, clients, P256Signer, session MemoryStore)",
                "openid4vp::wallet::Wallet (validate_request, submit_response)",
                "openid4vp::core (request objects, verification, response encoding, metadata, transcripts)"
            ]) } else { json!([
                "openid4vp::verifier (Verifier, builders, clients, P256Signer, session MemoryStore)",
                "openid4vp::wallet::Wallet (validate_request, submit_response)",
                "openid4vp::core (request objects, verification, response encoding, metadata, DCQL, transcripts)",
                "ssi JWS/JWK, p256, x509-cert, tokio::sync::Mutex"
            ]) },
            "stub_components": if prop == "C18" {
                json!(["TCP (socket pairs; connect, socket and setsockopt calls are intercepted)", "HTTP server", "clock (the runtime's paused time)",
                    "randomness", "DNS and TLS (not used)", "wallet policy hooks"])
            } else if prop == "C17" {
                json!(["josekit (JWE headers, keys and a toy cipher with real P-256 key agreement; not available offline)",
                    "executor, timers and clock", "randomness", "HTTP transport and server routing", "DID resolver", "signer", "store connection",
                    "application validator and wallet policy hooks", "attacker"])
            } else if threads_run {
                json!(["thread scheduler (real threads, one at a time, preempted at allocator calls)", "executor and wakers",
                    "randomness", "HTTP transport and server routing", "DID resolver", "store connection", "clock"])
            } else {
                json!(["executor, timers and clock", "randomness", "HTTP transport and server routing",
                    "DID resolver", "fallible signer in front of a real P-256 key", "store connection (faults, delays) around the real MemoryStore",
                    "application validator and wallet policy hooks", "attacker"])
            },
        },
        "assumptions": [
            "session stores apply each operation atomically (as the real MemoryStore does)",
            "an application uses a session id anew only after everybody is done with the session",
            "P-256, SHA-256 and the JSON, URL and CBOR libraries are correct",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viols,
    });
    std::fs::create_dir_all(format!("{dir}/evidence")).ok();
    std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{prop} {tier}: {} runs, {} distinct schedules, {:.0} s simulated, {} fault kinds, {} faults, {:.1} s, {}",
        a.runs,
        a.hashes.len(),
        a.sim_ms as f64 / 1000.0,
        a.faults.len(),
        a.faults.values().sum::<u64>(),
        search_s,
        if code == 0 { "held" } else { "VIOLATED" }
    );
    if a.mismatches > 0 {
        println!("warning: {} of {} repeated executions differed", a.mismatches, a.rechecked);
    }
    if !a.others.is_empty() && prop != "C24" {
        println!("note: violations of other properties: {:?}", a.others);
    }
    code
}
const QUICK_RUNS: u64 = 16000;
const BLOCKED_S: u64 = 100;

/// What the workers are doing; in a file that the supervising process reads when this one dies.
fn shared_slots() -> &'static [AtomicU64; 8] {
    if let Some(f) = std::env::var_os("VPSIM_SLOTS").and_then(|p| std::fs::OpenOptions::new().read(true).write(true).open(p).ok()) {
        use std::os::fd::AsRawFd;
        unsafe {
            let m = libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
            if m != libc::MAP_FAILED {
                return &*(m as *const [AtomicU64; 8]);
            }
        }
    }
    Box::leak(Box::default())
}

/// Runs a check in a process of its own: a run may exhaust its stack or abort, and then takes everything with it.
fn supervise(args: &[String]) -> i32 {
    let (prop, tier, seed, dir) = (&args[2], &args[3], args[4].parse().unwrap_or(1), &args[5]);
    let t0 = Instant::now();
    let slots = format!("{dir}/build/slots-{}", std::process::id());
    std::fs::create_dir_all(format!("{dir}/build")).ok();
    let child = |a: &[&str]| {
        std::process::Command::new(std::env::current_exe().expect("own path")).args(a).env("VPSIM_SLOTS", &slots).status().ok().and_then(|s| s.code())
    };
    if std::fs::write(&slots, [0u8; 64]).is_err() {
        return check(prop, tier, seed, dir);
    }
    let code = child(&["check-run", prop, tier, &args[4], dir]);
    let active: Vec<u64> = std::fs::read(&slots)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|b| u64::from_ne_bytes(b.try_into().unwrap()) & 0xffff_ffff)
        .filter(|i| *i > 0)
        .map(|i| i - 1)
        .collect();
    std::fs::remove_file(&slots).ok();
    if let Some(c) = code {
        return c;
    }
    let mut active = active;
    active.sort();
    println!("the simulation died; it was in runs {active:?}");
    for i in active {
        if child(&["run", prop, &args[4], &i.to_string()]).is_none() {
            let msg = format!("run {i} of seed {seed} brings the whole process down");
            return fatal(prop, tier, seed, i, dir, t0.elapsed().as_secs_f64(), "died", msg);
        }
    }
    2
}

/// A run that never comes back: some call blocks its whole thread, so that it never returns.
fn blocked(prop: &str, tier: &str, seed: u64, i: u64, dir: &str, wall: f64) -> i32 {
    let msg = format!("run {i} of seed {seed} did not come back in {BLOCKED_S} s: a call blocks outside of any await point");
    fatal(prop, tier, seed, i, dir, wall, "blocked", msg)
}
fn fatal(prop: &str, tier: &str, seed: u64, i: u64, dir: &str, wall: f64, key: &str, msg: String) -> i32 {
    let (kind, rs) = plan(prop, seed, i);
    println!("{key}: {msg}");
    if !["C13", "C15", "C22", "C24"].contains(&prop) {
        return 2;
    }
    let path = format!("{dir}/replays/{prop}-{key}-{i}.json");
    let replay = json!({
        "property": prop, "kind": format!("{kind:?}"), "seed": seed, "run": i, "run_seed": rs.to_string(),
        "violation": {"key": key, "message": msg, "properties": ["C13", "C15", "C22", "C24"]}, "choices": null,
    });
    std::fs::create_dir_all(format!("{dir}/replays")).ok();
    std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap()).ok();
    let ev = json!({
        "property": prop, "tier": if tier == "thorough" { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": i + 1, "distinct_nontrivial": i, "rule": "runs before the one that did not come back", "samples": [{"run": i}]},
        "assumptions": [], "wall_s": wall, "violations": [{"key": key, "message": msg, "replay": path}],
    });
    std::fs::create_dir_all(format!("{dir}/evidence")).ok();
    std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).ok();
    println!("VIOLATION property={prop} replay={path}");
    1
}

fn replay(file: &str) -> i32 {
    let j: Json = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let prop = j["property"].as_str().unwrap().to_string();
    let kind = match j["kind"].as_str() {
        Some("Threads") => Kind::Threads,
        Some("Http") => Kind::Http,
        Some("Parallel") => Kind::Parallel,
        _ => Kind::World,
    };
    let rs: u64 = j["run_seed"].as_str().unwrap().parse().unwrap();
    let src = match serde_json::from_value::<Vec<u32>>(j["choices"].clone()) {
        Ok(l) => from_list(&l),
        Err(_) if j["violation"]["key"] == "died" => {
            let me = std::env::current_exe().expect("own path");
            let ended = std::process::Command::new(me).args(["run", &prop, &j["seed"].to_string(), &j["run"].to_string()]).status();
            return match ended.ok().and_then(|s| s.code()) {
                None => {
                    println!("the process died: reproduced\nVIOLATION property={prop} replay={file}");
                    1
                }
                Some(_) => {
                    println!("the violation did not occur");
                    0
                }
            };
        }
        Err(_) => {
            std::thread::spawn(|| {
                std::thread::sleep(Duration::from_secs(BLOCKED_S));
                println!("does not come back: reproduced");
                std::process::exit(1);
            });
            from_seed(rs)
        }
    };
    let o = one(&prop, kind, src, rs, true);
    for l in &o.trace {
        println!("{l}");
    }
    println!("schedule hash {:016x}, recorded {}", o.hash, j["schedule_hash"].as_str().unwrap_or_default());
    let same = o.viol.iter().find(|v| v.props.contains(&prop.as_str()) && j["violation"]["key"] == v.key.as_str());
    match same {
        Some(v) => {
            println!("{}: {}", v.key, v.msg);
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        None => {
            println!("the violation did not occur");
            0
        }
    }
}

fn main() {
    if std::env::var("VPSIM_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // Backtraces in errors would make all threads share a lock.
    unsafe { std::env::set_var("RUST_BACKTRACE", "0") };
    threads::catch_traps();
    let a: Vec<String> = std::env::args().collect();
    if std::env::var_os("VPSIM_SLOTS").is_some() {
        // Ends with the supervising process.
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    }
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => supervise(&a),
        Some("run") => {
            let (kind, rs) = plan(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            one(&a[2], kind, from_seed(rs), rs, false);
            0
        }
        // Runs of all properties in turn until any of them is violated; for trying out changes to the library.
        Some("sweep") => {
            let (seed, runs): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            const ALL: &[&str] = &[
                "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C20",
                "C21", "C22", "C23", "C24", "C25",
                #[cfg(feature = "jwe")]
                "C17",
            ];
            let (next, stop) = (AtomicU64::new(0), AtomicBool::new(false));
            std::thread::scope(|s| {
                for _ in 0..std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= runs || stop.load(Ordering::Relaxed) {
                            return;
                        }
                        let prop = ALL[(i % ALL.len() as u64) as usize];
                        let (kind, rs) = plan(prop, seed, i / ALL.len() as u64);
                        let o = one(prop, kind, from_seed(rs), rs, false);
                        if let Some(v) = o.viol.iter().find(|v| v.key != "transcript-names-an-unfit-key" && (prop != "C24" || v.props.contains(&"C24"))) {
                            if !stop.swap(true, Ordering::Relaxed) {
                                println!("FOUND run {i} ({prop}): {:?} {}: {}", v.props, v.key, v.msg.chars().take(200).collect::<String>());
                            }
                        }
                    });
                }
            });
            stop.load(Ordering::Relaxed) as i32
        }
        Some("check-run") => check(&a[2], &a[3], a[4].parse().unwrap_or(1), &a[5]),
        Some("replay") => replay(&a[2]),
        // Every run twice, from its seed and from its recorded choices.
        Some("determinism") => {
            let n: u64 = a[4].parse().unwrap();
            let bad: u64 = (0..n)
                .filter(|i| {
                    let (kind, rs) = plan(&a[2], a[3].parse().unwrap(), *i);
                    let x = one(&a[2], kind, from_seed(rs), rs, false);
                    let y = one(&a[2], kind, from_list(&x.rec), rs, true);
                    let z = one(&a[2], kind, from_seed(rs), rs, true);
                    let same = x.hash == y.hash && y.trace == z.trace && x.rec == y.rec;
                    if !same {
                        println!("run {i} differs");
                    }
                    !same
                })
                .count() as u64;
            println!("{n} runs, {bad} differ");
            (bad > 0) as i32
        }
        Some("trace") => {
            let (kind, rs) = plan(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            let o = one(&a[2], kind, from_seed(rs), rs, true);
            for l in &o.trace {
                println!("{l}");
            }
            for v in &o.viol {
                println!("violates {:?} {}: {}", v.props, v.key, v.msg);
            }
            println!("{:016x} {} choices, {:?} {:?}", o.hash, o.rec.len(), o.faults, o.probes);
            0
        }
        _ => {
            eprintln!("usage: vpsim check PROPERTY TIER SEED DIR | replay FILE | trace PROPERTY SEED INDEX");
            2
        }
    };
    std::process::exit(code);
}
