//! Case runner, monitor verdicts, evidence and replay files.
use crate::Rng;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: u64,
    pub profile: String,
    pub sig: String,
    pub msg: String,
    pub trace: Vec<String>,
}
/// Collects what the monitors of one execution (case) saw.
pub struct Mon {
    pub prop: String,
    pub case: u64,
    pub profile: String,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub trace: Vec<String>,
    pub verbose: bool,
    pub known: BTreeSet<String>,
    pub known_seen: BTreeMap<String, String>,
}
impl Mon {
    pub fn new(prop: &str, case: u64, profile: &str) -> Mon {
        Mon {
            prop: prop.into(),
            case,
            profile: profile.into(),
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            trace: vec![],
            verbose: false,
            known: BTreeSet::new(),
            known_seen: BTreeMap::new(),
        }
    }
    /// Records a workload step (part of the replay file).
    pub fn step(&mut self, s: impl FnOnce() -> String) {
        if self.trace.len() > 4000 {
            self.trace.drain(..2000);
        }
        let s = s();
        if self.verbose {
            eprintln!("  {s}");
        }
        self.trace.push(s);
    }
    pub fn wants(&self, prop: &str) -> bool {
        self.prop == prop || self.prop == "ALL"
    }
    /// One oracle evaluation of property `prop`. `sig` classifies the failure (known findings match on it).
    pub fn check(&mut self, prop: &str, sig: &str, ok: bool, msg: impl FnOnce() -> String) -> bool {
        if !self.wants(prop) {
            return ok;
        }
        self.evals += 1;
        if !ok {
            let full = format!("{prop}:{sig}");
            if self.known.contains(&full) {
                let m = msg();
                self.known_seen.entry(full).or_insert(m);
                return ok;
            }
            if self.violations.len() < 3 {
                let v = Violation {
                    case: self.case,
                    profile: self.profile.clone(),
                    sig: full,
                    msg: msg(),
                    trace: self.trace.clone(),
                };
                if self.verbose {
                    eprintln!("!! {} {}", v.sig, v.msg);
                }
                self.violations.push(v);
            }
        }
        ok
    }
    /// Distinct non-trivial state/event class seen by the oracle.
    pub fn seen<K: Hash>(&mut self, prop: &str, k: K) {
        if self.wants(prop) {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            k.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.into()).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_insert(0) += n;
    }
    pub fn sample(&mut self, prop: &str, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 && self.wants(prop) {
            let s = s();
            self.samples.push(s);
        }
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
}

pub struct Spec {
    pub prop: &'static str,
    /// profile name, number of cases quick, number of cases thorough, workload
    pub profiles: Vec<(&'static str, u64, u64, fn(&mut Rng, &mut Mon))>,
    pub rule: &'static str,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn run_case(spec: &Spec, seed: u64, known: &BTreeSet<String>, pi: usize, case: u64, verbose: bool) -> Result<Mon, String> {
    let (name, _, _, f) = spec.profiles[pi];
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (name, case, seed).hash(&mut h);
    let mut rng = Rng::new(h.finish());
    let mut mon = Mon::new(spec.prop, case, name);
    mon.verbose = verbose;
    mon.known = known.clone();
    match catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut mon))) {
        Ok(()) => Ok(mon),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if mon.failed() {
                Ok(mon)
            } else {
                // an operation the workload relies on (deployment, owner actions, queries) must never fail
                mon.prop = spec.prop.into();
                mon.check(spec.prop, "must-succeed", false, || format!("an operation that must always succeed failed: {m}"));
                Ok(mon)
            }
        }
    }
}

/// Entry point of every check binary.
pub fn main_with(bin: &str, specs: Vec<Spec>) -> ! {
    crate::chain::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut tier = if tier == "thorough" { "thorough" } else { "quick" }.to_string();
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut prop = String::new();
    let mut replay = None;
    let mut one: Option<(String, u64)> = None;
    let mut only: Option<String> = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = args[i + 1].clone();
                i += 1
            }
            "--seed" => {
                seed = args[i + 1].parse().unwrap();
                i += 1
            }
            "--replay" => {
                replay = Some(args[i + 1].clone());
                i += 1
            }
            "--case" => {
                one = Some((args[i + 1].clone(), args[i + 2].parse().unwrap()));
                i += 2
            }
            // development aid: a single profile
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 1
            }
            p => prop = p.into(),
        }
        i += 1;
    }
    if let Some(r) = &replay {
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read(r).expect("replay file")).unwrap();
        prop = v["property"].as_str().unwrap().into();
        seed = v["seed"].as_u64().unwrap();
        one = Some((v["profile"].as_str().unwrap().into(), v["case"].as_u64().unwrap()));
    }
    let spec = match specs.iter().find(|s| s.prop == prop) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {prop}; this binary has {:?}", specs.iter().map(|s| s.prop).collect::<Vec<_>>());
            std::process::exit(3);
        }
    };
    let dir = verif_dir();
    // known findings, one per line: `open: property=<id> sig=<signature> <what fails>` (suppresses exactly that
    // signature) or `fixed: property=<id> <commit> <what failed>` (suppresses nothing)
    let mut known = BTreeSet::new();
    let mut known_text: BTreeMap<String, String> = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("open: property=") {
                let mut it = rest.splitn(3, ' ');
                let (p, g, t) = (it.next().unwrap(), it.next().expect("sig"), it.next().unwrap_or(""));
                let k = format!("{p}:{}", g.strip_prefix("sig=").expect("sig="));
                known_text.insert(k.clone(), t.into());
                known.insert(k);
            }
        }
    }
    if let Some((p, c)) = one {
        let pi = spec.profiles.iter().position(|x| x.0 == p).expect("profile");
        match run_case(spec, seed, &known, pi, c, true) {
            Ok(m) => {
                for v in &m.violations {
                    println!("VIOLATION property={} replay={} {} {}", prop, replay.clone().unwrap_or_default(), v.sig, v.msg);
                }
                println!("evals={} counters={:?}", m.evals, m.counters);
                std::process::exit(if m.failed() { 1 } else { 0 });
            }
            Err(e) => {
                eprintln!("ERROR {e}");
                std::process::exit(2);
            }
        }
    }
    let t0 = Instant::now();
    let cap_s: u64 = std::env::var("VERIF_CAP_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "quick" { 150 } else { 1500 });
    let mut jobs: Vec<(usize, u64)> = vec![];
    for (pi, p) in spec.profiles.iter().enumerate() {
        let n = if tier == "quick" { p.1 } else { p.2 };
        if only.as_ref().map_or(false, |o| o != p.0) {
            continue;
        }
        for c in 0..n {
            jobs.push((pi, c));
        }
    }
    // interleave profiles so that a time cap hurts all of them alike
    jobs.sort_by_key(|(pi, c)| {
        let n = if tier == "quick" { spec.profiles[*pi].1 } else { spec.profiles[*pi].2 };
        (c * 1_000_000 / n.max(1), *pi)
    });
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    struct Acc {
        evals: u64,
        distinct: HashSet<u64>,
        counters: BTreeMap<String, u64>,
        samples: Vec<String>,
        violations: Vec<Violation>,
        errors: Vec<String>,
        known_seen: BTreeMap<String, String>,
        cases: u64,
        capped: bool,
    }
    let acc = Mutex::new(Acc {
        evals: 0,
        distinct: HashSet::new(),
        counters: BTreeMap::new(),
        samples: vec![],
        violations: vec![],
        errors: vec![],
        known_seen: BTreeMap::new(),
        cases: 0,
        capped: false,
    });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if t0.elapsed().as_secs() > cap_s {
                        acc.lock().unwrap().capped = true;
                        break;
                    }
                    let j = next.fetch_add(1, Ordering::Relaxed);
                    if j >= jobs.len() {
                        break;
                    }
                    let (pi, c) = jobs[j];
                    let r = run_case(spec, seed, &known, pi, c, false);
                    let mut a = acc.lock().unwrap();
                    a.cases += 1;
                    match r {
                        Ok(m) => {
                            a.evals += m.evals;
                            a.distinct.extend(m.distinct);
                            for (k, n) in m.counters {
                                *a.counters.entry(k).or_insert(0) += n;
                            }
                            if a.samples.len() < 8 {
                                a.samples.extend(m.samples);
                            }
                            for (k, v) in m.known_seen {
                                a.known_seen.entry(k).or_insert(v);
                            }
                            if !m.violations.is_empty() {
                                a.violations.extend(m.violations);
                                if a.violations.len() > 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        Err(e) => {
                            a.errors.push(e);
                            if a.errors.len() > 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let a = acc.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let _ = std::fs::create_dir_all(format!("{dir}/evidence/replay"));
    let mut vj = vec![];
    for (n, v) in a.violations.iter().take(5).enumerate() {
        let path = format!("{dir}/evidence/replay/{prop}_{n}.json");
        let j = serde_json::json!({"property": prop, "bin": bin, "seed": seed, "tier": tier, "profile": v.profile,
            "case": v.case, "signature": v.sig, "message": v.msg, "trace": v.trace});
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&j).unwrap());
        println!("VIOLATION property={prop} replay={path}");
        println!("  {} [{} case {}]: {}", v.sig, v.profile, v.case, v.msg);
        vj.push(serde_json::json!({"signature": v.sig, "message": v.msg, "replay": path}));
    }
    for (k, m) in &a.known_seen {
        println!("KNOWN-FINDING: property={prop} {} ({k}; seen: {m})", known_text.get(k).cloned().unwrap_or_default());
    }
    for (k, t) in &known_text {
        if k.starts_with(&format!("{prop}:")) && !a.known_seen.contains_key(k) {
            println!("KNOWN-FINDING: property={prop} {t} ({k}; not exercised in this run)");
        }
    }
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.distinct.len(),
            "rule": spec.rule,
            "samples": a.samples.iter().take(8).collect::<Vec<_>>(),
            "executions": a.cases,
            "executions_planned": jobs.len(),
            "stopped_by_time_cap": a.capped,
            "profiles": spec.profiles.iter().map(|p| p.0).collect::<Vec<_>>(),
            "events": a.counters,
            "violation_details": vj.clone(),
            "known_findings_seen": a.known_seen.keys().collect::<Vec<_>>(),
        },
        "wall_s": wall,
        "violations": vj.len(),
    });
    let _ = std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_vec_pretty(&ev).unwrap());
    println!(
        "{prop} [{tier} seed={seed}]: {} executions, {} oracle evaluations, {} distinct classes, {:.1}s{}",
        a.cases,
        a.evals,
        a.distinct.len(),
        wall,
        if a.capped { " (time cap)" } else { "" }
    );
    for (k, n) in a.counters.iter() {
        println!("   {k}: {n}");
    }
    if !a.violations.is_empty() {
        std::process::exit(1);
    }
    if !a.errors.is_empty() {
        for e in a.errors.iter().take(5) {
            eprintln!("ERROR {e}");
        }
        std::process::exit(2);
    }
    if a.evals == 0 {
        eprintln!("INCONCLUSIVE: no oracle evaluation happened");
        std::process::exit(2);
    }
    std::process::exit(0);
}
