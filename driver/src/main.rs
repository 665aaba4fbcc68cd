//! Deterministic simulation of tveness/spinchain: seeded search over schedules, faults and histories.
//!   dst check <PROPERTY>      dst replay <FILE>      dst selftest [N]
mod cfgfile;
mod gen;
mod mini;
mod minimise;
mod multi;
mod rng;
mod sim;
mod walk;

use sim::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;
use walk::Viol;

pub const ALL: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22",
];

/// number of scenarios: quick, thorough
fn budget(p: &str) -> (u64, u64) {
    match p {
        "C01" => (700, 12_000),
        "C02" => (1600, 9_000),
        "C03" => (1600, 9_000),
        "C04" => (350, 8_000),
        "C05" => (800, 12_000),
        "C06" => (1500, 12_000),
        "C07" => (1600, 12_000),
        "C08" => (2000, 20_000),
        "C09" => (800, 8_000),
        "C10" => (1500, 8_000),
        "C11" => (2000, 12_000),
        "C12" | "C13" | "C20" => (2500, 20_000),
        "C16" => (2000, 12_000),
        "C14" => (400, 2_400),
        "C15" => (90, 1_200),
        "C17" => (126, 700),
        "C18" => (480, 4_000),
        "C19" => (600, 8_000),
        "C21" => (2000, 8_000),
        "C22" => (1200, 5_000),
        _ => (100, 1000),
    }
}

#[derive(Default)]
struct Stats {
    scenarios: u64,
    runs: u64,
    phys_runs: u64,
    fired: [u64; 14],
    configured: BTreeMap<String, u64>,
    byop: [u64; 16],
    modes: BTreeMap<String, u64>,
    outcomes: BTreeMap<String, u64>,
    policies: BTreeMap<String, u64>,
    steps: u64,
    switches: u64,
    clock_ns: u128,
    max_threads: u32,
    hashes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    crash_points: BTreeSet<String>,
    power: u64,
    phys: BTreeMap<String, u64>,
    replays: u64,
    mismatches: u64,
}
impl Stats {
    fn add(&mut self, sc: &Scenario, res: &[Option<Res>]) {
        self.scenarios += 1;
        for (s, r) in sc.steps.iter().zip(res) {
            let (Step::Run { prog, args, plan, powerloss, .. }, Some(r)) = (s, r) else { continue };
            self.runs += 1;
            if *prog == Prog::Phys {
                self.phys_runs += 1;
                for l in r.stdout.lines() {
                    if let Some(x) = l.strip_prefix("COUNT ") {
                        if let Some((k, n)) = x.rsplit_once(' ') { *self.phys.entry(k.into()).or_default() += n.parse::<u64>().unwrap_or(0); }
                    }
                }
            }
            let t = &r.trace;
            for i in 0..14 { self.fired[i] += t.fired[i] as u64; }
            for i in 0..16 { self.byop[i] += t.byop[i] as u64; }
            for f in &plan.faults { *self.configured.entry(format!("{} at {}", f.kind, f.class)).or_default() += 1; }
            if *prog == Prog::Sc {
                let m = args.iter().find(|a| a.starts_with('-') && !["-t", "-b", "--beta", "--tau", "--steps"].contains(&a.as_str()) && a[1..].parse::<f64>().is_err());
                let m = m.map_or("(default)".to_string(), |m| m.split('=').next().unwrap().to_string());
                *self.modes.entry(m).or_default() += 1;
            }
            *self.outcomes.entry(format!("{:?}", r.outcome).split('(').next().unwrap().to_string()).or_default() += 1;
            *self.policies.entry(plan.policy.split(' ').next().unwrap().into()).or_default() += 1;
            self.steps += t.steps;
            self.switches += t.switches;
            self.clock_ns += t.clock_ns as u128;
            self.max_threads = self.max_threads.max(t.threads);
            self.hashes.insert(t.hash);
            if t.switches > 0 || t.fired.iter().any(|x| *x > 0) { self.nontrivial.insert(t.hash); }
            if r.outcome == Outcome::Crashed {
                if powerloss.is_some() { self.power += 1; }
                for f in plan.faults.iter().filter(|f| f.is_crash()) { self.crash_points.insert(format!("{} {} {}", f.kind, f.class, f.prefix)); }
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.scenarios += o.scenarios;
        self.runs += o.runs;
        self.phys_runs += o.phys_runs;
        for i in 0..14 { self.fired[i] += o.fired[i]; }
        for i in 0..16 { self.byop[i] += o.byop[i]; }
        for (a, b) in [(&mut self.configured, o.configured), (&mut self.modes, o.modes), (&mut self.outcomes, o.outcomes), (&mut self.policies, o.policies), (&mut self.phys, o.phys)] {
            for (k, v) in b { *a.entry(k).or_default() += v; }
        }
        self.steps += o.steps;
        self.switches += o.switches;
        self.clock_ns += o.clock_ns;
        self.max_threads = self.max_threads.max(o.max_threads);
        self.hashes.extend(o.hashes);
        self.nontrivial.extend(o.nontrivial);
        self.crash_points.extend(o.crash_points);
        self.power += o.power;
        self.replays += o.replays;
        self.mismatches += o.mismatches;
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn jmap<V: std::fmt::Display>(m: impl Iterator<Item = (String, V)>) -> String {
    format!("{{{}}}", m.map(|(k, v)| format!("{}: {v}", js(&k))).collect::<Vec<_>>().join(", "))
}
pub fn summary(sc: &Scenario, res: &[Option<Res>]) -> String {
    let mut o = vec![sc.label.clone()];
    for (s, r) in sc.steps.iter().zip(res) {
        match (s, r) {
            (Step::Edit { name, content }, _) => o.push(match content {
                Some(c) => format!("write {name}: {}", String::from_utf8_lossy(&c[..c.len().min(600)]).replace('\n', "; ")),
                None => format!("remove {name}"),
            }),
            (Step::Run { prog, args, plan, thin, .. }, Some(r)) => {
                let f: Vec<String> = plan.faults.iter().map(|f| format!("{} at {} {} #{}{}", f.kind, f.class, f.prefix, f.nth, if f.sticky { " onwards" } else { "" })).collect();
                let fired: Vec<String> = (0..14).filter(|i| r.trace.fired[*i] > 0).map(|i| format!("{} x{}", FAULT_NAMES[i], r.trace.fired[i])).collect();
                o.push(format!("{} {} [{} seed {} every {thin}th update; faults: {}] -> {:?}; {} threads, {} steps, {} switches, {:.3} simulated s, trace {:016x}, fired: {}",
                    if *prog == Prog::Sc { "sc" } else { "phys" }, args.join(" "), plan.policy, plan.seed, if f.is_empty() { "none".into() } else { f.join(", ") },
                    r.outcome, r.trace.threads, r.trace.steps, r.trace.switches, r.trace.clock_ns as f64 * 1e-9, r.trace.hash, if fired.is_empty() { "none".into() } else { fired.join(", ") }));
            }
            _ => {}
        }
    }
    o.join(" | ")
}
fn same(a: &[Option<Res>], b: &[Option<Res>]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if let (Some(x), Some(y)) = (x, y) {
            if x.trace.hash != y.trace.hash { return Some(format!("step {i}: trace {:016x} and {:016x}", x.trace.hash, y.trace.hash)); }
            if x.outcome != y.outcome { return Some(format!("step {i}: {:?} and {:?}", x.outcome, y.outcome)); }
            if x.after != y.after {
                let d: Vec<&String> = x.after.keys().chain(y.after.keys()).filter(|k| x.after.get(*k) != y.after.get(*k)).collect();
                return Some(format!("step {i}: files differ: {d:?}"));
            }
            if x.stdout != y.stdout { return Some(format!("step {i}: different output")); }
        }
    }
    None
}

struct Known { prop: String, class: String, substr: String, text: String }
fn known_findings(verif: &Path) -> Vec<Known> {
    // known: property=<id> class=<class> match=<text up to end of line>
    let t = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let r = l.strip_prefix("known: property=")?;
        let (p, r) = r.split_once(" class=")?;
        let (c, m) = r.split_once(" match=")?;
        Some(Known { prop: p.into(), class: c.into(), substr: m.into(), text: format!("{c}: {m}") })
    }).collect()
}

fn env_path(k: &str) -> PathBuf {
    PathBuf::from(std::env::var(k).unwrap_or_else(|_| panic!("{k} is not set; use /verif/check")))
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    for base in ["/dev/shm", "/tmp"] {
        let p = Path::new(base).join(format!("spinchain-dst-{}", std::process::id()));
        if std::fs::create_dir_all(p.join("probe")).is_ok() && std::fs::write(p.join("probe/x"), [0u8; 4096]).is_ok() {
            let _ = std::fs::remove_dir_all(p.join("probe"));
            return Scratch(p);
        }
    }
    panic!("no scratch directory");
}
fn environment(root: &Path) -> Env {
    let e = Env {
        sc: env_path("DST_SC"), phys: env_path("DST_PHYS"), lib: env_path("DST_LIB"), root: root.into(),
        dog: Arc::new(Mutex::new(BTreeMap::new())), runs: Arc::new(AtomicU64::new(0)),
        cut: Arc::new(Mutex::new(Instant::now() + std::time::Duration::from_secs(1 << 30))),
    };
    watchdog(e.clone());
    e
}

fn check(prop: &str) -> i32 {
    let started = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let verif = env_path("DST_VERIF");
    let (q, t) = budget(prop);
    let total = std::env::var("DST_SCENARIOS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { t } else { q });
    let limit = if thorough { 7200.0 } else { 420.0 };
    println!("property {prop}, seed {seed}, {} tier: {total} scenarios", if thorough { "thorough" } else { "quick" });
    let tmp = scratch();
    let env = environment(&tmp.0);
    let has_phys = env.phys.exists();
    if !has_phys { println!("WARNING: the library-level workloads could not be built; only command-line scenarios are run"); }
    let secs = std::time::Duration::from_secs_f64;
    // scenarios that are under way at the end of the search get some time to finish, and no more
    *env.cut.lock().unwrap() = started + secs(limit + 200.0);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<BTreeMap<u64, (Scenario, Viol)>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let known = Arc::new(known_findings(&verif));
    let known_hit: Arc<Mutex<BTreeMap<String, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let samples: Arc<Mutex<BTreeMap<u64, String>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let workers = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(2, 8));
    let mut hs = vec![];
    for k in 0..workers {
        let (env, next, stop, found, samples, prop) = (env.clone(), next.clone(), stop.clone(), found.clone(), samples.clone(), prop.to_string());
        let (known, known_hit) = (known.clone(), known_hit.clone());
        hs.push(std::thread::spawn(move || {
            let mut r = Runner::new(&env, k);
            let mut st = Stats::default();
            loop {
                if stop.load(Ordering::Relaxed) || started.elapsed().as_secs_f64() > limit { break; }
                let n = next.fetch_add(1, Ordering::Relaxed);
                if n >= total { break; }
                let (sc, res) = gen::generate(&mut r, &prop, seed, n, thorough, has_phys);
                if env.over() { break; }
                st.add(&sc, &res);
                let v: Vec<Viol> = walk::judge(&sc, &res).into_iter().filter(|v| v.prop == prop).collect();
                let (old, new): (Vec<Viol>, Vec<Viol>) = v.into_iter().partition(|v| known.iter().any(|k| k.prop == v.prop && k.class == v.class && v.detail.contains(&k.substr)));
                for v in old { *known_hit.lock().unwrap().entry(format!("{}: {}", v.class, v.detail)).or_default() += 1; }
                if n < 3 || (n < 400 && n % 97 == 5) { samples.lock().unwrap().insert(n, summary(&sc, &res)); }
                if let Some(v) = new.into_iter().next() {
                    // the same scenario, from its text alone, must fail the same way
                    let (sc2, _) = Scenario::parse(&sc.text("", ""));
                    let res2 = r.execute(&sc2);
                    if env.over() { break; }
                    if walk::judge(&sc2, &res2).iter().any(|w| w.prop == v.prop && w.class == v.class) {
                        found.lock().unwrap().insert(n, (sc, v));
                        stop.store(true, Ordering::Relaxed);
                        *env.cut.lock().unwrap() = Instant::now();
                    } else {
                        st.mismatches += 1;
                        eprintln!("scenario {n}: {} {} did not repeat: {:?}", v.class, v.detail, same(&res, &res2));
                    }
                } else if n % 41 == 7 {
                    let (sc2, _) = Scenario::parse(&sc.text("", ""));
                    let res2 = r.execute(&sc2);
                    if env.over() { break; }
                    st.replays += 1;
                    if let Some(d) = same(&res, &res2) {
                        st.mismatches += 1;
                        eprintln!("scenario {n} did not repeat exactly: {d}");
                    }
                }
            }
            st
        }));
    }
    let mut st = Stats::default();
    let mut died = false;
    for h in hs {
        match h.join() { Ok(s) => st.merge(s), Err(_) => died = true }
    }
    if died { eprintln!("harness error: a worker of the driver died"); return 2; }
    for k in known.iter().filter(|k| k.prop == prop) {
        println!("KNOWN-FINDING: property={prop} {}", k.text);
    }
    let first = found.lock().unwrap().iter().next().map(|(n, x)| (*n, x.clone()));
    let search_s = started.elapsed().as_secs_f64();
    let mut code = 0;
    let mut viol = String::new();
    if let Some((n, (sc, v))) = first {
        println!("scenario {n} violates {prop}: {} ({})", v.class, v.detail);
        let allowed = if thorough { 400.0 } else { 90.0 };
        *env.cut.lock().unwrap() = Instant::now() + secs(allowed);
        let mut m = minimise::Min::new(&env, prop, &v.class, allowed);
        let (small, v) = m.run(sc, v);
        println!("minimised with {} executions to {} steps", m.tries, small.steps.len());
        let dir = verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{}-seed{seed}-{n}.replay", v.class));
        std::fs::write(&path, small.text(&v.class, &v.detail)).unwrap();
        println!("{}: {}", v.class, v.detail);
        println!("VIOLATION property={prop} replay={}", path.display());
        viol = format!("{}: {}", v.class, v.detail);
        code = 1;
    }
    // evidence
    let wall = started.elapsed().as_secs_f64();
    let per_hour = |x: u64| (x as f64 / search_s * 3600.0).round();
    let fired: Vec<(String, u64)> = (0..14).map(|i| (FAULT_NAMES[i].to_string(), st.fired[i])).collect();
    let ops: Vec<(String, u64)> = (0..16).map(|i| (OP_NAMES[i].to_string(), st.byop[i])).collect();
    let mut f = String::from("{\n");
    f += &format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n", js(prop), js(if thorough { "thorough" } else { "quick" }));
    f += "  \"coverage\": {\n";
    f += &format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", st.runs, st.nontrivial.len());
    f += &format!("    \"rule\": {},\n", js("One evaluation is one simulated process execution under one plan (seed, schedule, clock, faults) inside a generated scenario (configuration, files and a history of invocations). Distinct and non-trivial: different trace hash (hash over every scheduling decision and every intercepted operation with thread, file and result), counted only when the execution contained at least one thread switch or at least one fired fault."));
    f += &format!("    \"samples\": [{}],\n", samples.lock().unwrap().values().map(|s| js(s)).collect::<Vec<_>>().join(",\n      "));
    f += &format!("    \"scenarios\": {}, \"scenarios_planned\": {total},\n    \"simulated_process_runs_including_baselines_and_replays\": {},\n", st.scenarios, env.runs.load(Ordering::Relaxed));
    f += &format!("    \"scenarios_per_hour\": {}, \"runs_per_hour\": {},\n", per_hour(st.scenarios), per_hour(st.runs));
    f += &format!("    \"simulated_seconds\": {:.3}, \"scheduling_steps\": {}, \"thread_switches\": {}, \"most_threads_in_one_run\": {},\n", st.clock_ns as f64 * 1e-9, st.steps, st.switches, st.max_threads);
    f += &format!("    \"distinct_trace_hashes\": {},\n", st.hashes.len());
    f += &format!("    \"faults_fired\": {},\n    \"power_losses\": {},\n", jmap(fired.into_iter()), st.power);
    f += &format!("    \"faults_planned\": {},\n", jmap(st.configured.clone().into_iter()));
    f += &format!("    \"distinct_crash_points\": {},\n", st.crash_points.len());
    f += &format!("    \"intercepted_operations\": {},\n", jmap(ops.into_iter()));
    f += &format!("    \"modes\": {},\n    \"outcomes\": {},\n    \"schedulers\": {},\n", jmap(st.modes.clone().into_iter()), jmap(st.outcomes.clone().into_iter()), jmap(st.policies.clone().into_iter()));
    f += &format!("    \"library_workloads\": {},\n    \"library_runs\": {},\n", jmap(st.phys.clone().into_iter()), st.phys_runs);
    f += &format!("    \"replayed_scenarios\": {}, \"replay_mismatches\": {},\n", st.replays, st.mismatches);
    f += &format!("    \"real_components\": [{}],\n", ["the sc binary and library built from /repo's working tree (release profile, --cfg spinchain_sim), with its threadpool, indicatif, toml, clap, glob and rand dependencies", "Rust std, glibc, kernel file system (tmpfs or disk scratch directory)"].iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    f += &format!("    \"stubbed_components\": [{}]\n  }},\n", ["thread scheduling, futexes, clocks, sleeps, entropy, thread creation results and file-operation results (libdst.so decides all of them from the plan)", "count of Metropolis updates per equilibration (thinned by DST_THIN)", "terminal (stdout/stderr to a file, isatty answered by the plan)", "power loss (applied to the recorded sync/rename history by the driver)"].iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    f += "  \"assumptions\": [\"sampled schedules, faults, inputs: absence of a violation is evidence, not proof\", \"switches happen at intercepted operations (futex, file, clock, thread, yield), not between plain memory accesses\"],\n";
    if !viol.is_empty() { f += &format!("  \"violation\": {},\n", js(&viol)); }
    f += &format!("  \"wall_s\": {wall:.2},\n  \"violations\": {}\n}}\n", code);
    let ed = verif.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{prop}.json")), f).unwrap();
    println!("{} scenarios, {} runs, {} distinct non-trivial traces, {:.1} s{}", st.scenarios, st.runs, st.nontrivial.len(), wall, if st.mismatches > 0 { format!(", {} replays differed", st.mismatches) } else { String::new() });
    if std::env::var("DST_VERBOSE").is_ok() {
        println!("fired {:?}\nmodes {:?}\noutcomes {:?}\nphys {:?}\ncrash points {}", (0..14).map(|i| format!("{} {}", FAULT_NAMES[i], st.fired[i])).collect::<Vec<_>>(), st.modes, st.outcomes, st.phys, st.crash_points.len());
    }
    code
}

fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let (sc, class) = Scenario::parse(&t);
    let tmp = scratch();
    let env = environment(&tmp.0);
    let mut r = Runner::new(&env, 0);
    let res = r.execute(&sc);
    println!("{}", summary(&sc, &res).replace(" | ", "\n"));
    for (i, x) in res.iter().enumerate() {
        if let Some(x) = x { for l in x.stderr.lines().take(12) { println!("step {i} stderr: {l}"); } }
    }
    let v = walk::judge(&sc, &res);
    for w in &v { println!("{} {}: {}", w.prop, w.class, w.detail); }
    if let Ok(d) = std::env::var("DST_KEEP") {
        let _ = std::fs::create_dir_all(&d);
        for (n, b) in r.snap() { std::fs::write(Path::new(&d).join(n), &b[..]).unwrap(); }
    }
    if v.iter().any(|w| w.prop == sc.prop && (class.is_empty() || w.class == class)) {
        println!("VIOLATION property={} replay={file}", sc.prop);
        1
    } else { 0 }
}

/// every generator's scenarios twice, on different workers and directories, with everything compared
fn selftest(n: u64) -> i32 {
    let tmp = scratch();
    let env = environment(&tmp.0);
    let jobs: Arc<Mutex<Vec<(String, u64)>>> = Arc::new(Mutex::new(ALL.iter().flat_map(|p| (0..n).map(move |k| (p.to_string(), k))).collect()));
    let bad = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..8).map(|k| {
        let (env, jobs, bad, done) = (env.clone(), jobs.clone(), bad.clone(), done.clone());
        std::thread::spawn(move || {
            let mut a = Runner::new(&env, 2 * k);
            let mut b = Runner::new(&env, 2 * k + 1);
            loop {
                let Some((p, i)) = jobs.lock().unwrap().pop() else { break };
                let (sc, res) = gen::generate(&mut a, &p, 4242, i, false, true);
                let (sc2, _) = Scenario::parse(&sc.text("", ""));
                let res2 = b.execute(&sc2);
                done.fetch_add(1, Ordering::Relaxed);
                if let Some(d) = same(&res, &res2) {
                    bad.fetch_add(1, Ordering::Relaxed);
                    println!("{p} scenario {i}: {d}");
                }
            }
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
    println!("{} scenarios executed twice, {} differed", done.load(Ordering::Relaxed), bad.load(Ordering::Relaxed));
    (bad.load(Ordering::Relaxed) > 0) as i32 * 2
}

/// development aid: a share of every check's quick scenarios, up to the first violation of any of them
fn scan(permille: u64) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tmp = scratch();
    let env = environment(&tmp.0);
    let has_phys = env.phys.exists();
    let jobs: Arc<Vec<(&str, u64)>> = {
        let mut j: Vec<(u64, &str, u64)> = vec![];
        for p in ALL {
            let n = (budget(p).0 * permille / 1000).max(1);
            for k in 0..n { j.push((k * 1_000_000 / n, p, k)); }
        }
        j.sort();
        Arc::new(j.into_iter().map(|(_, p, k)| (p, k)).collect())
    };
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let workers = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let hs: Vec<_> = (0..workers).map(|k| {
        let (env, jobs, next, stop) = (env.clone(), jobs.clone(), next.clone(), stop.clone());
        std::thread::spawn(move || {
            let mut r = Runner::new(&env, k);
            while !stop.load(Ordering::Relaxed) {
                let Some(&(p, n)) = jobs.get(next.fetch_add(1, Ordering::Relaxed) as usize) else { break };
                let (sc, res) = gen::generate(&mut r, p, seed, n, false, has_phys);
                if env.over() { break; }
                if let Some(v) = walk::judge(&sc, &res).into_iter().find(|v| v.prop == p) {
                    if !stop.swap(true, Ordering::Relaxed) {
                        println!("CAUGHT {} {} scenario {n}: {}", v.prop, v.class, v.detail);
                        *env.cut.lock().unwrap() = Instant::now();
                    }
                }
            }
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
    if stop.load(Ordering::Relaxed) { return 1; }
    println!("nothing in {} scenarios", jobs.len());
    0
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = std::panic::catch_unwind(|| match a.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["check", p] if ALL.contains(&p) => check(p),
        ["replay", f] => replay(f),
        ["scan", n] => scan(n.parse().unwrap()),
        ["selftest"] => selftest(20),
        ["selftest", n] => selftest(n.parse().unwrap()),
        _ => { eprintln!("usage: dst check <C01..C22> | replay <file> | selftest [n]"); 2 }
    }).unwrap_or(2);
    std::process::exit(code);
}
