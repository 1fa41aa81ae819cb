//! Deterministic simulation of pica with fault injection: seeded search.
mod codec;
mod cross;
mod gen;
mod http;
mod minimise;
mod model;
mod oracle;
mod pcap;
mod report;
mod scene;
mod sse;
mod startup;
mod uci;
mod worker;

use crate::oracle::Stats;
use crate::report::Violation;
use crate::worker::Workers;
use serde::{Deserialize, Serialize};
use simtypes::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub violation: Violation,
    pub sched_hash: u64,
    pub steps: u64,
    pub faults: BTreeMap<String, u64>,
    pub plan: Plan,
}

pub struct Eval {
    pub hits: Vec<Violation>,
    pub all: Vec<Violation>,
    pub stats: Stats,
    pub hist: History,
    pub runs: u64,
}

fn concerns(v: &Violation, prop: &str) -> bool {
    prop == "any" || v.props.iter().any(|p| p == prop || p == "*")
}

/// Run a plan and decide the property on it.
pub fn evaluate(w: &mut Workers, prop: &str, plan: &Plan) -> Result<Eval, String> {
    let hist = w.run(plan)?;
    if hist.outcome == "badplan" {
        return Err("bad plan".into());
    }
    let (all, stats) = oracle::judge(plan, &hist);
    let mut hits: Vec<Violation> = all.iter().filter(|v| concerns(v, prop)).cloned().collect();
    let mut runs = 1;
    // Properties that say "makes no difference": something is wrong, and it
    // is right once the thing that should make no difference is taken away.
    if hits.is_empty() && !all.is_empty() && (prop == "C09" || prop == "C14") {
        if let Some(p2) = ablate(prop, plan) {
            let h2 = w.run(&p2)?;
            runs += 1;
            let (a2, _) = oracle::judge(&p2, &h2);
            if a2.is_empty() && h2.outcome == "done" {
                let mut v = all[0].clone();
                v.props.push(prop.into());
                v.what = format!(
                    "{} (only when {})",
                    v.what,
                    if prop == "C09" { "the input is cut into segments or fragments" } else { "other hosts misbehave or a host stalls" }
                );
                hits.push(v);
            }
        }
    }
    Ok(Eval { hits, all, stats, hist, runs })
}

fn ablate(prop: &str, plan: &Plan) -> Option<Plan> {
    let mut p = plan.clone();
    let mut changed = false;
    if prop == "C09" {
        for h in &mut p.hosts {
            if !matches!(h.seg, Seg::Whole) {
                h.seg = Seg::Whole;
                changed = true;
            }
            for s in &mut h.steps {
                if let Act::Send { frag, .. } = &mut s.act {
                    if !frag.is_empty() {
                        frag.clear();
                        changed = true;
                    }
                }
            }
        }
    } else {
        let n = p.hosts.len();
        p.hosts.retain(|h| h.role != "bad" && h.role != "garbage");
        changed |= p.hosts.len() != n;
        for h in &mut p.hosts {
            let n = h.steps.len();
            h.steps.retain(|s| !matches!(s.act, Act::Stall | Act::Resume));
            changed |= h.steps.len() != n;
        }
    }
    changed.then_some(p)
}

fn nontrivial(prop: &str, plan: &Plan, s: &Stats, h: &History) -> bool {
    let g = |k| s.get(k);
    match prop {
        "C01" => g("commands_answered") >= 3,
        "C02" => !h.faults.is_empty() || g("ends") > 0 || plan.hosts.iter().any(|h| h.role == "garbage"),
        "C03" => g("states") >= 3,
        "C04" => g("device_announcements") >= 4 || (g("resets") >= 3 && g("starts") >= 1),
        "C05" => g("reports") >= 2,
        "C06" => g("measurements") >= 1,
        "C07" => g("deliveries") >= 1,
        "C08" => g("ends") >= 1,
        "C09" => g("multi_fragment_out") + g("multi_fragment_in") >= 1 || plan.hosts.iter().any(|h| !matches!(h.seg, Seg::Whole)),
        "C10" => g("config_commands") >= 4,
        "C11" => g("multicast_commands") >= 1,
        "C12" => g("registry_ops") >= 2,
        "C13" => g("http_answers") >= 2,
        "C14" => g("blocked_windows") >= 1 || plan.hosts.iter().any(|h| h.role == "bad"),
        "C15" => g("trace_records") >= 2,
        "C20" => g("http_answers") >= 3,
        "C22" => plan.start.as_ref().map_or(false, |s| !s.args.is_empty()) || !h.faults.is_empty(),
        _ => true,
    }
}

fn rule(prop: &str) -> String {
    let n = match prop {
        "C01" => "at least three commands were answered",
        "C02" => "a fault was injected, a host went away or a host sent garbage",
        "C03" => "at least three session state or configuration changes happened",
        "C04" => "the device state was announced at least four times, or it was reset again after ranging",
        "C05" => "at least two ranging reports were sent",
        "C06" => "at least one measurement was reported",
        "C07" => "at least one non-empty data delivery happened",
        "C08" => "at least one host connection ended during the run",
        "C09" => "input was segmented or fragmented, or an output message needed several fragments",
        "C10" => "at least four configuration commands were processed",
        "C11" => "at least one multicast list command was processed",
        "C12" => "at least two anchor registry operations were answered",
        "C13" => "at least two HTTP requests were answered",
        "C14" => "a host's socket was blocked by a stall or a misbehaving host was present",
        "C15" => "at least two trace records were written",
        "C20" => "at least three HTTP requests were answered",
        "C22" => "the server was started with options or with a fault",
        _ => "always",
    };
    format!(
        "One case = one simulated execution of the real server under a plan generated from (VERIF_SEED, property, index): workload, scheduling policy, task holds, segmentation, stalls, disconnects and I/O faults. Non-trivial when {n}; distinct by the hash of its complete scheduling decision sequence (tasks, time, I/O deliveries)."
    )
}

fn mix(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h.wrapping_add(i.wrapping_mul(0xD6E8_FEB8_6659_FD93)));
    r.u64()
}

struct Args(BTreeMap<String, String>, Vec<String>);
impl Args {
    fn parse() -> Args {
        let mut m = BTreeMap::new();
        let mut pos = vec![];
        let mut it = std::env::args().skip(1).peekable();
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                pos.push(a);
            }
        }
        Args(m, pos)
    }
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.into())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

/// (property, text to look for in the violation, description)
fn known(path: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let Some((p, r)) = r.split_once(' ') else { continue };
        let Some(r) = r.strip_prefix("match=\"") else { continue };
        let Some((m, d)) = r.split_once('"') else { continue };
        out.push((p.to_string(), m.to_string(), d.trim().to_string()));
    }
    out
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    all_hashes: HashSet<u64>,
    outs: HashSet<u64>,
    faults: BTreeMap<String, u64>,
    stats: BTreeMap<String, u64>,
    plans: BTreeMap<String, u64>,
    sim_ns: u128,
    steps: u64,
    choices: u64,
    samples: Vec<serde_json::Value>,
    known_hits: BTreeMap<usize, u64>,
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

fn account(t: &mut Totals, prop: &str, plan: &Plan, e: &Eval, seed: u64) {
    t.runs += e.runs;
    t.sim_ns += e.hist.t_end as u128;
    t.steps += e.hist.steps;
    t.choices += e.hist.choices;
    for (k, v) in &e.hist.faults {
        *t.faults.entry(k.clone()).or_default() += v;
    }
    for (k, v) in &e.stats.0 {
        *t.stats.entry(k.to_string()).or_default() += v;
    }
    *t.plans.entry(format!("bin_{:?}", plan.bin).to_lowercase()).or_default() += 1;
    *t.plans.entry(format!("policy_{:?}", plan.policy.kind).to_lowercase()).or_default() += 1;
    *t.plans.entry("task_holds".into()).or_default() += plan.holds.len() as u64;
    t.all_hashes.insert(e.hist.sched_hash);
    let mut h = 0xcbf29ce484222325;
    for c in &e.hist.conns {
        h = fnv(h, c.tx_hex.as_bytes());
        h = fnv(h, b"|");
    }
    t.outs.insert(h);
    if nontrivial(prop, plan, &e.stats, &e.hist) && t.hashes.insert(e.hist.sched_hash) {
        t.nontrivial += 1;
        if t.samples.len() < 3 {
            t.samples.push(serde_json::json!({
                "seed": seed, "plan": plan, "outcome": e.hist.outcome, "sched_hash": e.hist.sched_hash,
                "scheduler_steps": e.hist.steps, "faults": e.hist.faults, "observed": e.stats.0,
            }));
        }
    }
}

fn check(a: &Args) -> i32 {
    let prop = a.get("prop", "C01");
    let tier = a.get("tier", "quick");
    let seed = a.num("seed", 1);
    let bins = a.get("bins", "/verif/.build/sim/debug");
    let evidence = a.get("evidence", "");
    let replay_dir = a.get("replays", "/verif/replays");
    let threads = a.num("threads", std::thread::available_parallelism().map_or(4, |n| n.get()) as u64);
    let count = a.num("count", 30_000);
    let secs = a.num("secs", 60);
    let kf = known(&a.get("known", ""));
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Plan, Violation)>> = Mutex::new(None);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let tot = Mutex::new(Totals::default());
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut w = Workers::new(&bins);
                while !stop.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_secs(secs) {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= count {
                        break;
                    }
                    let sd = mix(seed, &prop, i);
                    let plan = gen::gen(&prop, sd);
                    let e = match evaluate(&mut w, &prop, &plan) {
                        Ok(e) => e,
                        Err(x) => {
                            *err.lock().unwrap() = Some(format!("seed {sd}: {x}"));
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    };
                    let mut t = tot.lock().unwrap();
                    account(&mut t, &prop, &plan, &e, sd);
                    for v in &e.hits {
                        if let Some(k) = kf.iter().position(|k| k.0 == prop && v.what.contains(&k.1)) {
                            *t.known_hits.entry(k).or_default() += 1;
                            continue;
                        }
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some((sd, plan.clone(), v.clone()));
                        }
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                }
            });
        }
    });
    if let Some(e) = err.into_inner().unwrap() {
        eprintln!("simcheck: {e}");
        if found.lock().unwrap().is_none() {
            return 2;
        }
    }
    let t = tot.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    for (k, n) in &t.known_hits {
        println!("KNOWN-FINDING: property={} {} ({} runs)", kf[*k].0, kf[*k].2, n);
    }
    let found = found.into_inner().unwrap();
    let nviol = found.is_some() as u64;
    let mut code = 0;
    if let Some((sd, plan, v)) = found {
        let mut w = Workers::new(&bins);
        let kfp: Vec<String> = kf.iter().filter(|k| k.0 == prop).map(|k| k.1.clone()).collect();
        let (plan, e) = minimise::minimise(&mut w, &prop, plan, &kfp, Duration::from_secs(a.num("min_secs", 30)));
        let (v, hash, steps, faults) = match e {
            Some(e) => (e.hits[0].clone(), e.hist.sched_hash, e.hist.steps, e.hist.faults.clone()),
            None => (v, 0, 0, Default::default()),
        };
        let _ = std::fs::create_dir_all(&replay_dir);
        let path = format!("{replay_dir}/{prop}-{sd:016x}.json");
        let r = Replay { property: prop.clone(), seed: sd, violation: v.clone(), sched_hash: hash, steps, faults, plan };
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        println!("seed {sd}: host {:?} at {} us: {}", v.host, v.t_us, v.what);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    if !evidence.is_empty() {
        let ev = serde_json::json!({
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": t.runs,
                "distinct_nontrivial": t.nontrivial,
                "rule": rule(&prop),
                "samples": t.samples,
                "distinct_interleavings": t.all_hashes.len(),
                "distinct_observable_histories": t.outs.len(),
                "simulated_seconds": (t.sim_ns as f64) / 1e9,
                "seeds_per_hour": (t.runs as f64 / wall * 3600.0) as u64,
                "scheduler_steps": t.steps,
                "scheduling_choices": t.choices,
                "faults_injected": t.faults,
                "workload": t.stats,
                "plans": t.plans,
                "known_findings_seen": t.known_hits.values().sum::<u64>(),
                "real_components": ["pica library", "pica and pica-http main()", "hyper", "std net and fs code above libc", "tokio::net readiness through mio-level system calls of the vendored runtime"],
                "stub_components": ["tokio executor, timers, channels' wakers and coop budget (simulated runtime)", "Linux sockets, epoll, files, clocks and random numbers (simulated kernel)", "UCI hosts and HTTP clients (simulated peers)"],
            },
            "assumptions": [
                "the simulated kernel's socket, file and clock semantics match Linux for the calls pica makes",
                "tasks interleave at await points as on tokio's scheduler; blocking sections between await points are atomic, as they are under the engine's single consumer",
                "the reference model in /verif/sim/simcheck/src/model.rs states the UCI rules"
            ],
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": nviol,
        });
        if let Some(d) = std::path::Path::new(&evidence).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&evidence, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!(
        "{prop}: {} runs, {} distinct non-trivial, {:.1} simulated s, {:.1} s wall",
        t.runs, t.nontrivial, t.sim_ns as f64 / 1e9, wall
    );
    code
}

fn replay(a: &Args) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(&a.1[1]).unwrap()).unwrap();
    let mut w = Workers::new(&a.get("bins", "/verif/.build/sim/debug"));
    let e = evaluate(&mut w, &r.property, &r.plan).unwrap();
    match e.hits.first() {
        Some(v) => {
            println!("host {:?} at {} us: {}", v.host, v.t_us, v.what);
            println!(
                "{}",
                if e.hist.sched_hash == r.sched_hash && v.what == r.violation.what { "reproduced exactly" } else { "reproduced, but differently" }
            );
            println!("VIOLATION property={} replay={}", r.property, a.1[1]);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

fn one(a: &Args) -> i32 {
    let plan = if a.1.len() == 2 {
        let s = std::fs::read_to_string(&a.1[1]).unwrap();
        serde_json::from_str::<Replay>(&s).map(|r| r.plan).or_else(|_| serde_json::from_str(&s)).unwrap()
    } else {
        gen::gen(&a.1[1], a.1[2].parse().unwrap())
    };
    let mut w = Workers::new(&a.get("bins", "/verif/.build/sim/debug"));
    let h = w.run(&plan).unwrap();
    let h2 = w.run(&plan).unwrap();
    let (v, s) = oracle::judge(&plan, &h);
    println!("{}", serde_json::to_string(&serde_json::json!({"plan": plan, "hist": h, "v": v, "stats": s.0,
        "same": serde_json::to_string(&h).unwrap() == serde_json::to_string(&h2).unwrap()})).unwrap());
    0
}

/// Many seeds of every profile; violations grouped by text.
fn sweep(a: &Args) -> i32 {
    let bins = a.get("bins", "/verif/.build/sim/debug");
    let count = a.num("count", 2000);
    let seed = a.num("seed", 1);
    let props: Vec<String> = a.get("props", "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C20,C22").split(',').map(|s| s.into()).collect();
    let next = AtomicU64::new(0);
    type G = BTreeMap<String, (u64, String, u64, String)>;
    let groups: Mutex<G> = Mutex::new(BTreeMap::new());
    let stats: Mutex<BTreeMap<String, BTreeMap<String, u64>>> = Mutex::new(Default::default());
    let total = count * props.len() as u64;
    let first = a.num("first", 0) as usize;
    std::thread::scope(|s| {
        for _ in 0..a.num("jobs", 8) {
            s.spawn(|| {
                let mut w = Workers::new(&bins);
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= total || (first > 0 && groups.lock().unwrap().len() >= first) {
                        break;
                    }
                    let prop = &props[(i % props.len() as u64) as usize];
                    let sd = mix(seed, prop, i / props.len() as u64);
                    let plan = gen::gen(prop, sd);
                    match evaluate(&mut w, prop, &plan) {
                        Ok(e) => {
                            for v in &e.all {
                                let mut key: String = v.what.chars().take(400).collect();
                                key = normal(&key);
                                let mut g = groups.lock().unwrap();
                                let x = g.entry(format!("{:?} {key}", v.props)).or_insert((0, prop.clone(), sd, v.what.clone()));
                                x.0 += 1;
                            }
                            let mut st = stats.lock().unwrap();
                            let m = st.entry(prop.clone()).or_default();
                            for (k, v) in &e.stats.0 {
                                *m.entry(k.to_string()).or_default() += v;
                            }
                            *m.entry("runs".into()).or_default() += 1;
                            *m.entry("nontrivial".into()).or_default() += nontrivial(prop, &plan, &e.stats, &e.hist) as u64;
                        }
                        Err(x) => {
                            groups.lock().unwrap().entry(format!("ERR {x}")).or_insert((0, prop.clone(), sd, x)).0 += 1;
                        }
                    }
                }
            });
        }
    });
    let g = groups.into_inner().unwrap();
    let mut v: Vec<_> = g.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (k, (n, p, sd, ex)) in v.iter().take(a.num("top", 60) as usize) {
        println!("{n:6} {k}\n        e.g. {p} {sd}: {}", ex.chars().take(300).collect::<String>());
    }
    if a.num("stats", 0) > 0 {
        for (p, m) in stats.into_inner().unwrap() {
            println!("{p}: {m:?}");
        }
    }
    0
}

fn normal(s: &str) -> String {
    // digits and hex strings vary
    let mut out = String::new();
    for w in s.split(' ') {
        if w.chars().any(|c| c.is_ascii_digit()) {
            out.push('#');
        } else {
            out.push_str(w);
        }
        out.push(' ');
    }
    out
}

fn main() {
    let a = Args::parse();
    let code = match a.1.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("replay") => replay(&a),
        Some("one") => one(&a),
        Some("sweep") => sweep(&a),
        _ => {
            eprintln!("usage: simcheck check|replay FILE|one PROP SEED|sweep");
            2
        }
    };
    std::process::exit(code);
}
