//! The commands: check a property, replay a violation, self tests.
use crate::minimise::minimise;
use crate::plan::{self, Plan};
use crate::runner::*;
use serde_json::{json, Value};
use simrt::*;
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

const ROOT: &str = "/verif";

pub fn prop_no(s: &str) -> usize {
    s.trim_start_matches('C').parse().expect("property id")
}
fn id(p: usize) -> String {
    format!("C{p:02}")
}
fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1) as u64
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false)
}
fn cpus() -> usize {
    (unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.max(1) as usize).min(8)
}
fn quick_runs(p: usize) -> u64 {
    match p {
        1 | 11 | 13 => 450_000,
        _ => 250_000,
    }
}

// --- known findings ------------------------------------------------------------
struct Known {
    prop: String,
    class: String,
    code: String,
    text: String,
}
/// Lines `known: property=C01 class=X call=Y | text`; `fixed:` lines suppress nothing.
fn known() -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{ROOT}/known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known:")?;
            let (head, text) = l.split_once('|')?;
            let get = |k: &str| head.split_whitespace().find_map(|w| w.strip_prefix(k).map(|x| x.to_string())).unwrap_or_default();
            Some(Known { prop: get("property="), class: get("class="), code: get("call="), text: text.trim().to_string() })
        })
        .collect()
}
fn code_name(c: u16) -> &'static str {
    apops::CODES.get(c as usize).map(|x| x.1).unwrap_or("?")
}

// --- aggregation ---------------------------------------------------------------
fn sum(b: &[*mut Shared], f: impl Fn(&Shared) -> u64) -> u64 {
    b.iter().map(|p| f(unsafe { &**p })).sum()
}
fn coverage(p: usize, s: &Sweep, wall: f64, samples: Vec<Value>) -> Value {
    let n = s.il.len();
    let b = &s.blocks;
    let mut faults = BTreeMap::new();
    for (i, k) in FAULT_KINDS.iter().enumerate() {
        let x = sum(b, |h| h.fired[i]);
        if x > 0 {
            faults.insert(k.to_string(), x);
        }
    }
    let mut probes = BTreeMap::new();
    for (i, k) in PROBE_NAMES.iter().enumerate() {
        let x = if i == PR::PeakLive as usize { b.iter().map(|p| unsafe { (**p).probes[i] }).max().unwrap_or(0) } else { sum(b, |h| h.probes[i]) };
        if x > 0 {
            probes.insert(k.to_string(), x);
        }
    }
    let mut calls = BTreeMap::new();
    for (c, name) in apops::CODES {
        let x = sum(b, |h| h.opcodes[*c as usize]);
        if x > 0 {
            calls.insert(name.to_string(), x);
        }
    }
    let edges = (0..MAX_EDGES).filter(|i| b.iter().any(|p| unsafe { (**p).edges[*i] } & 1 != 0)).count();
    let preempted = (0..MAX_EDGES).filter(|i| b.iter().any(|p| unsafe { (**p).edges[*i] } & 2 != 0)).count();
    let total_edges = simrt::cov::n_edges();
    let distinct: HashSet<u64> = (0..n).filter(|i| s.nontrivial[*i] != 0).map(|i| s.hash[i]).collect();
    let il: HashSet<u64> = s.il.iter().copied().filter(|x| *x != 0).collect();
    let all: HashSet<u64> = s.hash.iter().copied().filter(|x| *x != 0).collect();
    json!({
        "evaluations": s.runs,
        "distinct_nontrivial": distinct.len(),
        "rule": format!("One evaluation is one simulated run: a plan (initial values, calls per thread, faults per call, scheduler and allocator parameters) generated from one 64-bit seed by the {} profile, executed in a fresh process under the seeded scheduler. It is non-trivial if at least one oracle evaluation of {} happened under that property's conditions, and distinct if its event history (every context switch with its position, every call's observed result) hashes differently from all others.", id(p), id(p)),
        "samples": samples,
        "oracle_evaluations": sum(b, |h| h.rel[p]),
        "runs_per_hour": (s.runs as f64 / wall.max(0.001) * 3600.0) as u64,
        "seeds_per_hour": (s.runs as f64 / wall.max(0.001) * 3600.0) as u64,
        "simulated_steps": sum(b, |h| h.steps),
        "simulated_time_ns": sum(b, |h| h.sim_time),
        "context_switches": sum(b, |h| h.switches),
        "distinct_interleavings": il.len(),
        "distinct_interleavings_measure": "distinct hashes over the sequence of (from, to, operation, scheduling point) of all context switches of a run",
        "distinct_event_histories": all.len(),
        "edges_of_code_under_test": {"instrumented": total_edges, "executed": edges, "executed_with_a_preemption_right_there": preempted,
            "note": "control-flow edges of apint, smallvec and the call glue"},
        "longest_call_in_scheduling_points": b.iter().map(|p| unsafe { (**p).max_op_points }).max().unwrap_or(0),
        "faults_injected": faults,
        "probes": probes,
        "calls": calls,
        "runs_with_violations_of_other_properties": s.others,
        "components": {
            "real": ["apint (all of /repo/src, instrumented)", "smallvec (instrumented)", "serde, serde_json, bincode, ciborium, rand/rand_chacha/getrandom (uninstrumented)", "Rust std threads, locks, panics and unwinding"],
            "simulated": ["scheduler (which thread runs at every edge, load and store)", "heap (global allocator)", "entropy (getrandom)", "clock and sleep", "futex", "disk (file writer and reader)"],
            "stub": ["text sinks, hashers, random generators, token-level serializer and deserializer, argument conversions handed to the library as a caller would"]
        }
    })
}
fn write_evidence(p: usize, cov: Value, wall: f64, violations: u64) {
    let e = json!({
        "property": id(p),
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": env_seed() as i64,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "the compiler instruments every load, store and edge of the code under test; preemption happens only there, at allocator calls, callbacks and blocking calls",
            "sequentially consistent memory: reorderings by hardware are not simulated",
            "allocation failure unwinds (alloc error hook) instead of aborting the process"
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
    std::fs::write(format!("{ROOT}/evidence/{}.json", id(p)), serde_json::to_string_pretty(&e).unwrap()).expect("evidence");
}

fn samples(p: usize, vseed: u64) -> Vec<Value> {
    (0..2)
        .map(|k| {
            let pl = plan::gen(p, seed_of(vseed, p, k));
            let o = eval(&pl, true);
            json!({
                "index": k, "seed": format!("{:x}", pl.seed), "threads": pl.ops.len(), "context_switches": o.switches.len(), "event_hash": format!("{:x}", o.hash),
                "history": o.trace.lines().take(14).map(|l| if l.len() > 300 { l.chars().take(300).collect::<String>() + "..." } else { l.to_string() }).collect::<Vec<_>>(),
            })
        })
        .collect()
}

fn describe(p: &Plan, v: &V, o: &Outcome, k: u64, vseed: u64, runs: u64) -> Value {
    json!({
        "format": "apint-sim replay 1",
        "property": id(p.prop),
        "verif_seed": vseed as i64,
        "run_index": k,
        "run_seed": format!("{:x}", p.seed),
        "violation": {"class": format!("{:?}", v.class), "call": code_name(v.code), "thread": v.tid, "operation": v.op, "text": v.text},
        "minimised_with_runs": runs,
        "event_hash": format!("{:x}", o.hash),
        "history": o.trace.lines().collect::<Vec<_>>(),
        "plan": p.json(),
    })
}

pub fn check(prop: &str, runs: Option<u64>) -> i32 {
    let p = prop_no(prop);
    let t0 = Instant::now();
    let vseed = env_seed();
    let (n, cap) = if thorough() { (runs.unwrap_or(quick_runs(p) * 30), 800) } else { (runs.unwrap_or(quick_runs(p)), 240) };
    let known = known();
    let mut skip: Vec<u64> = Vec::new();
    let _ = &mut skip;
    let s = sweep(p, vseed, n, cpus(), cap, true);
    let sweep_s = t0.elapsed().as_secs_f64();
    for k in known.iter().filter(|k| k.prop == id(p)) {
        println!("KNOWN-FINDING: property={} {}", k.prop, k.text);
    }
    let mut violations = 0;
    let mut code = 0;
    if let Some(k) = s.first {
        let pl = plan::gen(p, seed_of(vseed, p, k));
        let o = eval(&pl, false);
        match hit(&pl, &o) {
            None => {
                eprintln!("HARNESS: run {k} did not reproduce");
                code = 3;
            }
            Some(v) if known.iter().any(|x| x.prop == id(p) && x.class == format!("{:?}", v.class) && x.code == code_name(v.code)) => {}
            Some(v) => {
                violations = 1;
                code = 1;
                let (small, r) = minimise(&pl, v.class, 60);
                let o = eval(&small, true);
                let (best, o, v) = match hit(&small, &o) {
                    Some(v) => (small, o, v),
                    None => {
                        let o = eval(&pl, true);
                        let v = hit(&pl, &o).unwrap_or(v);
                        (pl, o, v)
                    }
                };
                let dir = format!("{ROOT}/out");
                let _ = std::fs::create_dir_all(&dir);
                let f = format!("{dir}/{}-{}-{:x}.json", id(p), if thorough() { "thorough" } else { "quick" }, best.seed);
                std::fs::write(&f, serde_json::to_string_pretty(&describe(&best, &v, &o, k, vseed, r)).unwrap()).expect("replay file");
                println!("{:?} in run {} (seed {:x}), {} calls after minimisation: {}", v.class, k, best.seed, best.n_ops(), v.text);
                for l in o.trace.lines().take(30) {
                    println!("    {l}");
                }
                println!("VIOLATION property={} replay={}", id(p), f);
            }
        }
    }
    let smp = samples(p, vseed);
    let cov = coverage(p, &s, sweep_s, smp);
    write_evidence(p, cov, t0.elapsed().as_secs_f64(), violations);
    if code == 0 {
        if let Some(h) = &s.harness {
            eprintln!("HARNESS: {h}");
            code = 3;
        }
    }
    println!("{}: {} runs, {} violations, {:.1} s", id(p), s.runs, violations, t0.elapsed().as_secs_f64());
    code
}

pub fn replay(file: &str, tr: bool) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let p = Plan::parse(&v["plan"]).expect("plan");
    let o = eval(&p, true);
    if tr {
        print!("{}", o.trace);
    }
    let same = format!("{:x}", o.hash) == v["event_hash"].as_str().unwrap_or("");
    match hit(&p, &o) {
        Some(h) => {
            println!("{:?}: {}", h.class, h.text);
            println!("event hash {:x} {}", o.hash, if same { "(identical to the recorded run)" } else { "(differs from the recorded run)" });
            println!("VIOLATION property={} replay={}", id(p.prop), file);
            1
        }
        None => {
            println!("no violation of {} in this replay; {} other(s): {:?}", id(p.prop), o.viols.len(), o.viols.first().map(|v| (v.class, &v.text)));
            0
        }
    }
}
pub fn trace(prop: &str, k: u64) -> i32 {
    let p = prop_no(prop);
    let pl = plan::gen(p, seed_of(env_seed(), p, k));
    let o = eval(&pl, true);
    print!("{}", o.trace);
    println!("hash {:x} interleaving {:x} switches {}", o.hash, o.il, o.switches.len());
    for v in &o.viols {
        println!("{:?} op {} {} aux {:x}: {}", v.class, v.op, code_name(v.code), v.aux, v.text);
    }
    0
}
/// Prints every kind of violation a sweep shows, with an example.
pub fn survey(prop: &str, n: u64) -> i32 {
    let p = prop_no(prop);
    let t0 = Instant::now();
    let mut seen: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut slow: Vec<(u128, u64)> = vec![];
    for k in 0..n {
        let t = Instant::now();
        let pl = plan::gen(p, seed_of(env_seed(), p, k));
        let o = eval(&pl, false);
        slow.push((t.elapsed().as_micros(), k));
        if let Some(v) = o.viols.first() {
            let e = seen.entry(format!("{:?} {}", v.class, code_name(v.code))).or_insert((0, k, v.text.clone()));
            e.0 += 1;
        }
    }
    for (k, (c, i, t)) in &seen {
        println!("{c:6} {k}: run {i}: {t}");
    }
    slow.sort();
    println!("median {} us, p90 {} us, slowest {:?}", slow[slow.len() / 2].0, slow[slow.len() * 9 / 10].0, &slow[slow.len().saturating_sub(3)..]);
    println!("{} runs, {:.2} s", n, t0.elapsed().as_secs_f64());
    0
}
pub fn determinism(n: u64) -> i32 {
    let mut bad = 0;
    for p in 1..=14 {
        let a = sweep(p, env_seed(), n, cpus(), 600, false);
        let b = sweep(p, env_seed(), n, 3, 600, false);
        let d = (0..n as usize).filter(|i| a.hash[*i] != b.hash[*i] || a.il[*i] != b.il[*i]).collect::<Vec<_>>();
        // replay from the recorded switches
        let mut r = 0;
        for k in 0..n.min(60) {
            let mut pl = plan::gen(p, seed_of(env_seed(), p, k));
            let o = eval(&pl, false);
            pl.switches = Some(o.switches.clone());
            let o2 = eval(&pl, false);
            if o.hash != o2.hash {
                r += 1;
                if r == 1 {
                    println!("{}: run {k} replays differently", id(p));
                }
            }
        }
        println!("{}: {} runs, {} differ between two sweeps {:?}, {} replays differ", id(p), n, d.len(), d.first(), r);
        bad += d.len() + r;
    }
    (bad > 0) as i32
}
