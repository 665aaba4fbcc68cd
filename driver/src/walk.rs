//! The oracle.  It walks over a simulated history (files before and after every simulated process, its
//! exit status and its faults) and reports every way in which the history contradicts a property.
//! It knows the program's documentation (what a mode produces), not its code.
use crate::cfgfile::{self, Cfg};
use crate::mini::{self, Mini, V};
use crate::sim::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: String,
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Sim,
    Lang(f64),
    Resp,
    Ext,
    DynProf,
    Mc,
    McMagnus,
    McProf,
    DynHist(usize),
    Tau(Vec<f64>, u32),
    Traj(usize),
    MagHist(usize),
    Hist(usize),
    Avg,
    TwoPoint,
    /// option letter, file, columns, value of the option
    Fit(char, &'static str, usize, f64),
    Desc,
}
impl M {
    pub fn is_batch(&self) -> bool {
        matches!(self, M::Sim | M::Lang(_) | M::Resp | M::Ext | M::DynProf)
    }
    pub fn makes_logs(&self) -> bool {
        self.is_batch() || matches!(self, M::Tau(..))
    }
}
pub struct Parsed {
    pub modes: Vec<M>,
    pub tau: Option<f64>,
    pub beta: Option<f64>,
}
pub fn parse_args(a: &[String]) -> Parsed {
    let (mut tau, mut beta, mut steps) = (None, None, 1000u32);
    let mut got: Vec<(u32, M)> = vec![];
    let mut taus: Vec<f64> = vec![];
    let mut i = 0;
    let val = |i: &mut usize| -> Option<f64> {
        if let Some(v) = a.get(*i + 1).and_then(|v| v.parse::<f64>().ok()) { *i += 1; Some(v) } else { None }
    };
    while i < a.len() {
        match a[i].as_str() {
            "-t" | "--tau" => tau = val(&mut i),
            "-b" | "--beta" => beta = val(&mut i),
            "--steps" => steps = val(&mut i).unwrap() as u32,
            "-e" | "--ext" => got.push((0, M::Ext)),
            "-n" => { taus.push(val(&mut i).unwrap()); }
            "-D" => { let v = val(&mut i).unwrap(); got.push((2, M::Fit('D', "beta.dat", 3, v))) }
            "-r" => { let v = val(&mut i).unwrap(); got.push((3, M::Fit('r', "betat-rot.dat", 7, v))) }
            "-E" => { let v = val(&mut i).unwrap(); got.push((4, M::Fit('E', "betat-maglab.dat", 7, v))) }
            "-f" => { let v = val(&mut i).unwrap(); got.push((5, M::Fit('f', "betat.dat", 7, v))) }
            "-F" => { let v = val(&mut i).unwrap(); got.push((6, M::Fit('F', "betat.dat", 7, v))) }
            "-H" => { let v = val(&mut i).unwrap(); got.push((7, M::Fit('H', "betat.dat", 7, v))) }
            "-A" => { let v = val(&mut i).unwrap(); got.push((8, M::Fit('A', "beta.dat", 8, v))) }
            "--histogram" => { let v = val(&mut i); got.push((9, M::Hist(v.unwrap_or(8000.0) as usize))) }
            "-d" => { let v = val(&mut i); got.push((10, M::DynHist(v.unwrap_or(1000.0) as usize))) }
            "--magnus-hist" => { let v = val(&mut i); got.push((11, M::MagHist(v.unwrap_or(8000.0) as usize))) }
            "-s" => { let v = val(&mut i); got.push((12, M::Traj(v.unwrap_or(1000.0) as usize))) }
            "-a" | "--avg" => got.push((13, M::Avg)),
            "--two-point" => got.push((14, M::TwoPoint)),
            "-m" => got.push((15, M::Mc)),
            "-p" => got.push((16, M::McProf)),
            "-P" => got.push((17, M::DynProf)),
            "--monte-carlo-magnus" => got.push((18, M::McMagnus)),
            "-l" => { let v = val(&mut i); got.push((19, M::Lang(v.unwrap_or(1.0)))) }
            "--response" => got.push((20, M::Resp)),
            "--config-desc" => got.push((21, M::Desc)),
            x if x.starts_with("--magnus-fit=") => got.push((4, M::Fit('E', "betat-maglab.dat", 7, x[13..].parse().unwrap()))),
            x if x.starts_with("--beta=") => beta = x[7..].parse().ok(),
            x => panic!("unknown argument {x}"),
        }
        i += 1;
    }
    if !taus.is_empty() { got.push((1, M::Tau(taus, steps))); }
    got.sort_by_key(|x| x.0);
    let mut modes: Vec<M> = got.into_iter().map(|x| x.1).collect();
    if modes.is_empty() { modes.push(M::Sim); }
    Parsed { modes, tau, beta }
}

pub fn table(b: &[u8]) -> Result<Vec<Vec<f64>>, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not text".to_string())?;
    if !s.is_empty() && !s.ends_with('\n') {
        return Err(format!("last row is cut off: {:?}", s.lines().last().unwrap_or("")));
    }
    s.lines().enumerate().map(|(i, l)| {
        let r: Option<Vec<f64>> = l.split_whitespace().map(|w| w.parse::<f64>().ok()).collect();
        match r {
            Some(v) if !v.is_empty() => Ok(v),
            _ => Err(format!("row {} is not a row of numbers: {:?}", i + 1, l)),
        }
    }).collect()
}
fn ceil_dir(x: f64) -> f64 { x.ceil() }

/// Is `ts` (without the initial row) the documented time grid of (t0, t_end]?
pub fn grid(ts: &[f64], t0: f64, tend: f64, dt: f64, strob: bool, tau: f64) -> Option<String> {
    let tol = 1e-6 * dt + 1e-9;
    for w in ts.windows(2) {
        if w[1] <= w[0] { return Some(format!("time goes from {} to {}", w[0], w[1])); }
    }
    // every time is on the step grid
    for t in ts {
        let k = (t - t0) / dt;
        if (k - k.round()).abs() > 1e-4 || k.round() < 1.0 { return Some(format!("time {t} is not a whole number of steps {dt} after {t0}")); }
        if *t > tend + dt + tol { return Some(format!("time {t} is beyond the first step reaching {tend}")); }
    }
    let nsteps = if tend > t0 { ceil_dir((tend - t0) / dt - 1e-6).max(1.0) } else { 0.0 };
    let exact = ((tend - t0) / dt - ((tend - t0) / dt).round()).abs() < 1e-6;
    if !strob {
        let n = ts.len() as f64;
        if !(n == nsteps || (exact && nsteps > 0.0 && n == nsteps + 1.0)) {
            return Some(format!("{} rows after the initial one instead of {}", n, nsteps));
        }
        return None;
    }
    if tau < dt * 0.999 { return None; }
    // assign every row, in order, to the first free period it is nearest to (on a tie there are two)
    let mut k = (t0 / tau).floor() as i64 - 1;
    let mut it = ts.iter().peekable();
    while (k as f64) * tau <= tend + 2.0 * dt {
        let want = k as f64 * tau;
        match it.peek() {
            Some(t) if **t < want - dt * 0.5 - tol => return Some(format!("row at t={t}, which is not at a whole period of {tau} of its own")),
            Some(t) if **t <= want + dt * 0.5 + tol => { it.next(); }
            _ => {
                let inside = want > t0 + 0.5 * dt + tol && want < tend - 0.5 * dt - tol;
                if inside { return Some(format!("no row at period {k} (t={want})")); }
            }
        }
        k += 1;
    }
    if let Some(t) = it.next() { return Some(format!("row at t={t}, which is not at a whole period of {tau}")); }
    None
}

pub struct Walk<'a> {
    pub sc: &'a Scenario,
    pub v: Vec<Viol>,
    done: BTreeMap<String, Arc<Vec<u8>>>,
    step: usize,
    after_fault: bool,
    faulty: bool,
}
pub fn judge(sc: &Scenario, res: &[Option<Res>]) -> Vec<Viol> {
    let mut w = Walk { sc, v: vec![], done: BTreeMap::new(), step: 0, after_fault: false, faulty: false };
    for (i, s) in sc.steps.iter().enumerate() {
        w.step = i;
        match (s, &res[i]) {
            (Step::Edit { name, .. }, _) => {
                w.done.remove(name);
                if name == "config.toml" { w.done.clear(); }
            }
            (Step::Run { prog: Prog::Sc, thin, args, plan, powerloss }, Some(r)) => w.run(*thin, args, plan, *powerloss, r),
            (Step::Run { prog: Prog::Phys, args, .. }, Some(r)) => w.phys(args, r),
            _ => {}
        }
    }
    crate::multi::judge(sc, res, &mut w.v);
    w.v
}
pub fn hard(f: &Fault) -> bool { !f.is_benign() && !f.is_crash() }

fn is_log(name: &str, file: &str) -> bool {
    name.strip_prefix(file).and_then(|r| r.strip_suffix(".dat")).map_or(false, |d| !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit()))
}

impl<'a> Walk<'a> {
    fn bad(&mut self, props: &[&str], class: &str, detail: String) {
        for p in props {
            self.v.push(Viol { prop: p.to_string(), class: class.into(), detail: format!("step {}: {}", self.step, detail) });
        }
    }
    /// an output of a successful run is not what it has to be
    fn incomplete(&mut self, prop: &str, class: &str, detail: String) {
        self.bad(&[prop], class, detail.clone());
        self.bad(&["C06"], class, format!("reported success, but {detail}"));
        if self.after_fault && !self.faulty { self.bad(&["C19"], class, format!("after an interrupted run: {detail}")); }
    }
    fn run(&mut self, thin: u64, args: &[String], plan: &Plan, powerloss: Option<u64>, r: &Res) {
        let p = parse_args(args);
        let injected: Vec<&Fault> = plan.faults.iter().filter(|f| !f.is_benign()).collect();
        let hard_fired = plan.faults.iter().any(|f| hard(f) && r.trace.fired[FAULT_NAMES.iter().position(|n| *n == f.kind).unwrap()] > 0);
        self.faulty = !injected.is_empty();
        let before = r.before.get("config.toml").cloned();
        let after = r.after.get("config.toml").cloned();
        let cfg0 = match &before { None => Some((Cfg::default(), vec![])), Some(b) => cfgfile::parse(b) };
        let ok = r.outcome == Outcome::Ok;
        let crashed = r.outcome == Outcome::Crashed;

        // C07: it must have ended
        if matches!(r.outcome, Outcome::Deadlock | Outcome::StepLimit | Outcome::Hang) {
            self.bad(&["C07"], "no-termination", format!("sc {} does not end: {:?} after {} scheduling steps", args.join(" "), r.outcome, r.trace.steps));
            if !self.faulty { self.v.push(Viol { prop: self.sc.prop.clone(), class: "no-termination".into(), detail: format!("step {}: {:?} without any fault", self.step, r.outcome) }); }
            self.after_fault = true;
            return;
        }
        let cfg_fault = plan.faults.iter().any(|f| hard(f) && f.prefix == "config.toml" && ["read", "open"].contains(&f.class.as_str()) && f.nth == 0) && hard_fired;
        // C05: an existing configuration that cannot be read or parsed is reported and left untouched
        let Some((cfg, keys)) = cfg0 else {
            if ok { self.bad(&["C05"], "bad-config-accepted", format!("an invalid configuration was accepted (sc {})", args.join(" "))); }
            if after != before { self.bad(&["C05"], "bad-config-replaced", "an invalid configuration was replaced".into()); }
            return;
        };
        if cfg_fault && before.is_some() && !crashed && plan.faults.len() == 1 {
            if after != before { self.bad(&["C05"], "unreadable-config-replaced", "a configuration that could not be read was replaced".into()); }
            if ok { self.bad(&["C05"], "unreadable-config-ignored", "a configuration that could not be read was ignored".into()); }
        }
        // the disturbances a program has to absorb must not make it fail
        let unspecified = p.modes.iter().any(|m| *m == M::TwoPoint) && self.two_point_undefined(&cfg, r);
        if !ok && !crashed && !hard_fired && !unspecified {
            let why = if plan.faults.is_empty() { "failed-without-cause" } else { "failed-on-harmless-disturbance" };
            let tail: String = r.stderr.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
            let d = format!("sc {} ended with {:?}: {}", args.join(" "), r.outcome, tail);
            // a reported error is a valid ending as far as C07 is concerned
            if self.sc.prop != "C07" { self.v.push(Viol { prop: self.sc.prop.clone(), class: why.into(), detail: format!("step {}: {}", self.step, d) }); }
            if self.sc.prop != "C06" { self.bad(&["C06"], why, d.clone()); }
            if self.after_fault && self.sc.prop != "C19" { self.bad(&["C19"], why, d); }
        }
        self.config(&p, &cfg, &keys, before.as_deref(), after.as_deref(), powerloss.is_some() && crashed, r);
        let cfg_after = after.as_ref().and_then(|b| cfgfile::parse(b)).map(|x| x.0);

        // files of earlier successful batches keep their content
        let kept: Vec<(String, Arc<Vec<u8>>)> = self.done.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        for (n, b) in kept {
            if r.after.get(&n) != Some(&b) {
                let d = match r.after.get(&n) { None => "was removed".to_string(), Some(x) => format!("changed ({} -> {} bytes)", b.len(), x.len()) };
                self.bad(&["C04"], "completed-log-changed", format!("{n}, the log of an earlier completed batch, {d} in sc {}", args.join(" ")));
                self.done.insert(n.clone(), r.after.get(&n).cloned().unwrap_or_default());
            }
        }
        // modes without logs leave logs alone
        if p.modes.iter().all(|m| !m.makes_logs()) {
            let pick = |s: &Snap| -> BTreeMap<String, Arc<Vec<u8>>> {
                s.iter().filter(|(n, _)| is_log(n, &cfg.file)).map(|(a, b)| (a.clone(), b.clone())).collect()
            };
            let (a, b) = (pick(&r.before), pick(&r.after));
            if a != b {
                let diff: Vec<String> = a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).cloned().collect();
                self.bad(&["C10"], "log-touched", format!("sc {} changed {:?}", args.join(" "), diff));
                if p.modes.contains(&M::Avg) || p.modes.contains(&M::TwoPoint) { self.bad(&["C08"], "log-touched", format!("averaging changed {diff:?}")); }
            }
        }
        // and whatever else is there that is not theirs, logs of other configurations included
        if p.modes.iter().all(|m| !m.makes_logs()) && powerloss.is_none() {
            let mut mine: Vec<String> = p.modes.iter().flat_map(|m| append_files(m, &cfg)).map(|x| x.0).collect();
            mine.extend(["mc_profile.dat", "avg.dat", "two-point.dat"].map(String::from));
            let names: std::collections::BTreeSet<&String> = r.before.keys().chain(r.after.keys()).filter(|n| n.ends_with(".dat") && !mine.contains(n) && !is_log(n, &cfg.file)).collect();
            for n in names {
                if r.before.get(n) != r.after.get(n) {
                    self.bad(&["C10"], "foreign-file-touched", format!("sc {} {} {n}", args.join(" "), if r.before.contains_key(n) { "changed" } else { "created" }));
                }
            }
        }
        // append-only files never lose what they held
        for m in &p.modes {
            for (name, _, _) in append_files(m, &cfg) {
                if let Some(b) = r.before.get(&name) {
                    let a = r.after.get(&name);
                    if a.map_or(true, |a| !a.starts_with(b)) && powerloss.is_none() {
                        self.bad(&["C02", "C19"], "old-rows-lost", format!("{name} no longer starts with what it held before sc {}", args.join(" ")));
                        if matches!(m, M::Fit(..)) { self.bad(&["C17"], "old-rows-lost", format!("{name} no longer starts with the earlier rows")); }
                    }
                }
            }
        }
        // numbering and outputs, mode by mode in the order of execution
        let mut c = cfg.clone();
        if let Some(t) = p.tau { c.tau = t; }
        let nb = p.modes.iter().filter(|m| m.is_batch()).count();
        let adv = cfg_after.as_ref().map(|a| a.offset - cfg.offset);
        let mut seen = 0;
        for m in &p.modes {
            if !(ok || (crashed && powerloss.is_none() && m.is_batch() && nb == 1 && adv == Some(cfg.runs) && cfg.runs > 0)) { break; }
            if m.is_batch() {
                seen += 1;
                let mut names = vec![];
                let mut lc = c.clone();
                if matches!(m, M::Lang(_)) { lc.hsize = lc.ssize; c.hsize = c.ssize; }
                for i in 0..cfg.runs {
                    let name = format!("{}{}.dat", c.file, c.offset + i);
                    names.push(name.clone());
                    if *m == M::DynProf { continue; }
                    if !cfg.log && !matches!(m, M::Lang(_)) { continue; }
                    match r.after.get(&name) {
                        None => {
                            self.incomplete("C01", "log-missing", format!("{name} does not exist (sc {})", args.join(" ")));
                            self.bad(&["C04"], "log-missing", format!("{name}, a log of this batch, does not exist (sc {})", args.join(" ")));
                        }
                        Some(b) => {
                            let b = b.clone();
                            self.log(m, &lc, &name, &b, &p, thin);
                        }
                    }
                }
                for n in names { if let Some(b) = r.after.get(&n) { self.done.insert(n, b.clone()); } }
                c.offset += cfg.runs;
            }
            if ok { self.mode(m, &c, &p, thin, r); }
            match m {
                M::MagHist(_) | M::Hist(_) => { c.drive = "none".into(); c.file = "x".into(); }
                M::DynProf => c.t = c.tau * 4000.0,
                _ => {}
            }
        }
        if let Some(a) = adv {
            let full = nb as i64 * cfg.runs;
            if ok && a != full {
                self.bad(&["C04"], "offset", format!("offset went from {} by {a} after {} successful batch(es) of {} runs", cfg.offset, nb, cfg.runs));
                if self.after_fault && !self.faulty { self.bad(&["C19"], "offset", format!("offset advanced by {a} instead of {full}")); }
            }
            // (with several modes in one invocation a later one can fail after the batch has succeeded)
            if !ok && !crashed && a != 0 && nb <= 1 && p.modes.len() <= 1 {
                self.bad(&["C06", "C04"], "offset-after-failure", format!("the run failed ({:?}) but the offset went from {} by {a}", r.outcome, cfg.offset));
            }
            if crashed && (a < 0 || a > full || (cfg.runs > 0 && a % cfg.runs != 0)) {
                self.bad(&["C04"], "offset", format!("offset went from {} by {a} in a killed run of {} x {}", cfg.offset, nb, cfg.runs));
            }
        } else if ok {
            self.bad(&["C04", "C05"], "config-gone", "no readable configuration after a successful run".into());
        }
        // a successful batch writes only its own logs
        if ok && nb >= 1 {
            let (lo, hi) = (cfg.offset, cfg.offset + nb as i64 * cfg.runs);
            for (n, b) in &r.after {
                if is_log(n, &cfg.file) && r.before.get(n) != Some(b) {
                    let k: i64 = n[cfg.file.len()..n.len() - 4].parse().unwrap_or(-1);
                    if k < lo || k >= hi { self.bad(&["C04"], "foreign-log-written", format!("batch {lo}..{hi} wrote {n}")); }
                }
            }
        }
        let _ = seen;
        if self.faulty && !ok { self.after_fault = true; }
    }

    fn config(&mut self, p: &Parsed, cfg: &Cfg, keys: &[String], before: Option<&Vec<u8>>, after: Option<&Vec<u8>>, power: bool, r: &Res) {
        if before == after { return; }
        let Some(a) = after else {
            self.bad(&["C05"], "config-removed", format!("the configuration is gone ({:?})", r.outcome));
            return;
        };
        let later = self.after_fault && !self.faulty;
        let what = if power { "after a power loss" } else { "afterwards" };
        let Some((new, nkeys)) = cfgfile::parse(a) else {
            self.bad(&["C05"], "config-damaged", format!("the configuration {what} ({:?}) is not readable: {:?}", r.outcome, String::from_utf8_lossy(&a[..a.len().min(80)])));
            if later { self.bad(&["C19"], "config-damaged", "after an interrupted run: the configuration is not readable".into()); }
            return;
        };
        let lost: Vec<&str> = cfgfile::KEYS.iter().filter(|k| !nkeys.iter().any(|n| n == *k)).cloned().collect();
        if !lost.is_empty() || a.last() != Some(&b'\n') {
            self.bad(&["C05"], "config-damaged", format!("the configuration {what} ({:?}) is incomplete, {} of 23 settings are missing", r.outcome, lost.len()));
            if lost.iter().any(|k| keys.iter().any(|n| n == k)) { return; }
        }
        let diff = cfgfile::differing(cfg, &new);
        if !diff.is_empty() {
            let reset = cfgfile::differing(&Cfg::default(), &new).is_empty();
            if reset { self.bad(&["C05"], "config-reset", format!("the configuration was replaced by the defaults ({:?})", r.outcome)); }
            self.bad(&["C09"], "setting-changed", format!("sc changed settings it must not change: {}", diff.join(", ")));
        }
        let want = cfgfile::solve_beta(cfg.ednsty);
        if new.beta.to_bits() != cfg.beta.to_bits() && !((new.beta - want).abs() <= 0.03 * want.abs() + 0.03) && want.is_finite() && cfg.ednsty > -0.9991 && cfg.ednsty < -0.0009 {
            self.bad(&["C09"], "beta-overwritten", format!("stored beta went from {} to {}, the energy density {} stands for {want}", cfg.beta, new.beta, cfg.ednsty));
        }
        if new.beta.to_bits() != cfg.beta.to_bits() && cfg.ednsty > -0.98 && cfg.ednsty < -0.02 {
            let e = 1.0 / new.beta - 1.0 / new.beta.tanh();
            if !((e - cfg.ednsty).abs() < 0.01) {
                self.bad(&["C15"], "temperature", format!("stored beta {} stands for the energy density {e}, not for {}", new.beta, cfg.ednsty));
            }
        }
        let nb = p.modes.iter().filter(|m| m.is_batch()).count() as i64;
        let step = new.offset - cfg.offset;
        if step != 0 && !(cfg.runs != 0 && step > 0 && step <= nb * cfg.runs && step % cfg.runs == 0) {
            self.bad(&["C09"], "offset-changed", format!("offset went from {} to {}", cfg.offset, new.offset));
        }
    }

    fn log(&mut self, m: &M, c: &Cfg, name: &str, b: &[u8], p: &Parsed, thin: u64) {
        let mut text = b;
        if let M::Lang(_) = m {
            match b.iter().position(|x| *x == b'\n') {
                Some(i) if b[0] == b'#' => text = &b[i + 1..],
                _ => { self.incomplete("C01", "log-rows", format!("{name} has no header line")); return; }
            }
        }
        if *m == M::Ext { self.ext_log(c, name, b, p, thin); return; }
        let rows = match table(text) {
            Ok(r) => r,
            Err(e) => { self.incomplete("C01", "log-rows", format!("{name}: {e}")); return; }
        };
        let cols = if matches!(m, M::Lang(_)) { 8 } else { 13 };
        if let Some((i, r)) = rows.iter().enumerate().find(|(_, r)| r.len() != cols) {
            self.incomplete("C01", "log-rows", format!("{name}: row {} has {} columns instead of {cols}", i + 1, r.len()));
            return;
        }
        self.finite(name, &rows);
        if rows.is_empty() || (rows[0][0] + c.trel).abs() > 1e-9 * (1.0 + c.trel.abs()) {
            self.incomplete("C01", "log-rows", format!("{name}: the initial row at t={} is missing", -c.trel));
            return;
        }
        let (t0, tend) = if *m == M::Resp { (-c.t, c.t) } else { (-c.trel, c.t) };
        let ts: Vec<f64> = rows[1..].iter().map(|r| r[0]).collect();
        if let Some(e) = grid(&ts, t0, tend, c.dt, c.strob, c.tau) {
            self.incomplete("C01", "log-rows", format!("{name} (t0={t0} t={tend} dt={} strob={} tau={}): {e}", c.dt, c.strob, c.tau));
            if c.strob { self.bad(&["C22"], "log-rows", format!("{name}: {e}")); }
            return;
        }
        if matches!(m, M::Lang(_)) { self.lang_checks(m, c, name, &rows, p, thin); } else { self.row_checks(m, c, name, &rows, p, thin); }
    }
    fn finite(&mut self, name: &str, rows: &[Vec<f64>]) {
        for (i, r) in rows.iter().enumerate() {
            if let Some(x) = r.iter().find(|x| !x.is_finite()) {
                self.bad(&["C11"], "not-finite", format!("{name} row {}: {x}", i + 1));
                if name.contains("live") || name.contains("hist") || name.contains("evt") { self.bad(&["C02"], "not-finite", format!("{name} row {}: {x}", i + 1)); }
                return;
            }
        }
    }
    fn unit(&mut self, name: &str, i: usize, v: &[f64]) -> bool {
        let l = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
        if (l - 1.0).abs() > 1e-9 {
            self.bad(&["C11"], "not-unit", format!("{name} row {}: spin of length {l}", i + 1));
            return false;
        }
        true
    }
    /// what every ordinary log row must satisfy by itself, and what consecutive rows must satisfy
    fn row_checks(&mut self, m: &M, c: &Cfg, name: &str, rows: &[Vec<f64>], p: &Parsed, thin: u64) {
        for (i, r) in rows.iter().enumerate() {
            if !self.unit(name, i, &r[7..10]) || !self.unit(name, i, &r[10..13]) { return; }
            if c.ssize == 2 {
                for k in 0..3 {
                    let mean = 0.5 * (r[7 + k] + r[10 + k]);
                    if (mean - r[3 + k]).abs() > 1e-9 {
                        self.bad(&["C20"], "magnetisation", format!("{name} row {}: m[{k}] = {} but the two spins give {mean}", i + 1, r[3 + k]));
                        return;
                    }
                }
            }
            if (0..3).map(|k| r[3 + k] * r[3 + k]).sum::<f64>() > 1.0 + 1e-9 || r[6].abs() > 1.0 + 1e-9 {
                self.bad(&["C20"], "magnetisation", format!("{name} row {}: magnetisation per site above one", i + 1));
                return;
            }
            if c.ssize == c.hsize && (r[6] - r[5]).abs() > 1e-9 {
                self.bad(&["C20"], "magnetisation", format!("{name} row {}: total and subsystem m_z differ although the subsystem is the whole chain", i + 1));
                return;
            }
        }
        // the whole state is visible
        if c.hsize == 2 && c.ssize == 2 && c.jvar == 0.0 && c.hvar == 0.0 {
            for (i, r) in rows.iter().enumerate() {
                let mut x = Mini::aligned(c, [1.0, 0.0, 0.0]);
                x.s = vec![[r[7], r[8], r[9]], [r[10], r[11], r[12]]];
                let w = x.row(r[0]);
                for k in 1..13 {
                    if (w[k] - r[k]).abs() > 1e-8 * (1.0 + w[k].abs()) {
                        self.bad(&["C20"], "observable", format!("{name} row {} column {}: {} instead of {}", i + 1, k + 1, r[k], w[k]));
                        return;
                    }
                }
            }
            if !c.strob && rows.len() > 2 && c.tau > 20.0 * c.dt {
                let mut first = rows[0].clone();
                if *m == M::Resp { first[0] = -c.t; }
                for i in 1..rows.len() {
                    let a = if i == 1 { &first } else { &rows[i - 1] };
                    let mk = |r: &[f64]| { let mut x = Mini::aligned(c, [1.0, 0.0, 0.0]); x.s = vec![[r[7], r[8], r[9]], [r[10], r[11], r[12]]]; x };
                    let (mut w, mut s, mut o) = (mk(a), mk(a), mk(a));
                    let off = *m == M::Resp && a[0] >= -1e-9;
                    if *m == M::Resp && a[0].abs() <= 1e-9 * c.t.max(1.0) { continue; }
                    w.no_static = off; s.no_static = off; o.no_static = off;
                    w.rk4(a[0], c.dt, 16);
                    s.split(a[0], c.dt, 0, 0.5);
                    o.split(a[0], c.dt, 1, 0.5);
                    let err = 6.0 * w.dist(&s).max(w.dist(&o)) + 2e-3 * c.dt.powi(2) + 1e-8;
                    let got = mk(&rows[i]);
                    if w.dist(&got) > err {
                        self.bad(&["C12"], "equation-of-motion", format!("{name} row {}: spins are off by {:e} after one step of {} (allowed {:e})", i + 1, w.dist(&got), c.dt, err));
                        return;
                    }
                }
            }
        }
        // energy conservation
        let stat = c.drive == "none" || c.drive == "staticfield";
        if stat && *m != M::Resp {
            let e0 = rows[0][1];
            if let Some((i, r)) = rows.iter().enumerate().find(|(_, r)| (r[1] - e0).abs() > 1e-8 * (1.0 + e0.abs())) {
                self.bad(&["C13"], "energy-drift", format!("{name} row {}: energy {} instead of {e0} (drive {})", i + 1, r[1], c.drive));
                return;
            }
        }
        if stat && *m == M::Resp {
            // the field is switched off at t=0: the logged energy is constant up to there
            let upto = rows.iter().skip(1).take_while(|r| r[0] < -1e-6).count() + 1;
            let e0 = rows[0][1];
            if let Some((i, r)) = rows[..upto].iter().enumerate().find(|(_, r)| (r[1] - e0).abs() > 1e-8 * (1.0 + e0.abs())) {
                self.bad(&["C13", "C12"], "energy-drift", format!("{name} row {}: energy {} instead of {e0} before the field is switched off", i + 1, r[1]));
                return;
            }
        }
        if c.drive == "none" && c.lambda == 1.0 && c.jvar == 0.0 && c.hvar == 0.0 && c.hs == [0.0; 3] && c.hfield[0] == 0.0 && c.hfield[1] == 0.0 && *m != M::Resp {
            let allow = 8.0 * c.dt * c.dt + 1e-9;
            let cols: &[usize] = if c.hfield == [0.0; 3] && c.ssize == c.hsize { &[3, 4, 5, 6] } else { &[6] };
            for k in cols {
                if let Some((i, r)) = rows.iter().enumerate().find(|(_, r)| (r[*k] - rows[0][*k]).abs() > allow) {
                    self.bad(&["C13"], "magnetisation-drift", format!("{name} row {} column {}: {} instead of {}", i + 1, k + 1, r[*k], rows[0][*k]));
                    return;
                }
            }
        }
        if let Some(dir) = aligned_start(c, p, thin, &rows[0]) { self.trajectory(m, c, name, rows, dir); }
    }
    /// A chain that starts with all spins parallel has a trajectory we can compute.
    fn trajectory(&mut self, m: &M, c: &Cfg, name: &str, rows: &[Vec<f64>], dir: V) {
        let n = self.v.len();
        self.trajectory_with(m, c, name, rows, dir, true);
        if *m == M::Resp && self.v.len() > n {
            // the step that starts at t=0 up to rounding may or may not still see the static field
            let keep = self.v.split_off(n);
            self.trajectory_with(m, c, name, rows, dir, false);
            if self.v.len() > n { self.v.truncate(n); self.v.extend(keep); }
        }
    }
    fn trajectory_with(&mut self, m: &M, c: &Cfg, name: &str, rows: &[Vec<f64>], dir: V, off_at_zero: bool) {
        let gamma = if let M::Lang(g) = m { Some(*g) } else { None };
        let mk = || { let mut x = Mini::aligned(c, dir); x.open = gamma; x };
        let at = if gamma.is_some() { 1.0 } else { 0.5 };
        let (mut w, mut s, mut o) = (mk(), mk(), mk());
        let mut t = if *m == M::Resp { -c.t } else { -c.trel };
        let start = t;
        let mut step = 0u64;
        let (pm, pe) = if gamma.is_some() { ("C16", "C16") } else { ("C12", "C20") };
        let mut tol: f64 = 0.0;
        for (i, r) in rows.iter().enumerate() {
            let target = if i == 0 { 0 } else { ((r[0] - start) / c.dt).round() as u64 };
            while step < target {
                let z = 1e-9 * c.t.max(1.0);
                let off = *m == M::Resp && (t > z || t >= -z && off_at_zero);
                w.no_static = off; s.no_static = off; o.no_static = off;
                w.rk4(t, c.dt, 8);
                s.split(t, c.dt, 0, at);
                o.split(t, c.dt, 1, at);
                step += 1;
                t = start + step as f64 * c.dt;
                tol = tol.max(5.0 * w.dist(&s).max(w.dist(&o)) * (1.0 + 0.02 * t.abs()));
                if gamma.is_some() { tol = tol.max(5.0 * s.dist(&o)); }
            }
            let allow = tol + 1e-6 + 1e-2 * c.dt.powi(2);
            if allow > 0.2 { return; }
            let want = w.row(r[0]);
            let sub = [1usize, 2, 3, 4, 5, 6];
            let spin_cols: Vec<usize> = if gamma.is_some() { vec![3, 4, 5, 6] } else { (3..13).collect() };
            for k in &spin_cols {
                if (want[*k] - r[*k]).abs() > allow {
                    self.bad(&[pm], "trajectory", format!("{name} row {} (t={}) column {}: {} instead of {} (allowed {:e})", i + 1, r[0], k + 1, r[*k], want[*k], allow));
                    if c.drive == "none" { self.bad(&["C13"], "trajectory", format!("{name} row {}: motion differs from free precession", i + 1)); }
                    return;
                }
            }
            let f = 2.0 + 2.0 * (mini::norm(&c.hfield) + mini::norm(&c.hs) + 1.0 + c.lambda.abs());
            for k in &sub[..2] {
                // in Langevin mode both energy columns are those of the subsystem
                let wk = if gamma.is_some() { want[2] } else { want[*k] };
                if (wk - r[*k]).abs() > allow * f {
                    self.bad(&[pe], "observable", format!("{name} row {} (t={}) column {}: {} instead of {} (allowed {:e})", i + 1, r[0], k + 1, r[*k], wk, allow * f));
                    return;
                }
            }
        }
    }
    /// sampled states of chains that start with all spins parallel: rows of (time, total energy, subsystem
    /// energy, magnetisation), NaN where the mode does not report it
    fn evolved(&mut self, c: &Cfg, dir: V, name: &str, rows: &[[f64; 6]]) {
        let mk = || Mini::aligned(c, dir);
        let (mut w, mut s, mut o) = (mk(), mk(), mk());
        let (mut step, mut tol) = (0u64, 0.0f64);
        for (i, r) in rows.iter().enumerate() {
            let target = ((r[0] + c.trel) / c.dt).round().max(0.0) as u64;
            if target > 4000 { return; }
            while step < target {
                let t = -c.trel + step as f64 * c.dt;
                w.rk4(t, c.dt, 8);
                s.split(t, c.dt, 0, 0.5);
                o.split(t, c.dt, 1, 0.5);
                step += 1;
                tol = tol.max(5.0 * w.dist(&s).max(w.dist(&o)) * (1.0 + 0.02 * (t + c.dt).abs()));
            }
            let allow = tol + 1e-6 + 1e-2 * c.dt.powi(2);
            if allow > 0.2 { return; }
            let t = -c.trel + step as f64 * c.dt;
            let m = w.m();
            let f = 2.0 + 2.0 * (mini::norm(&c.hfield) + mini::norm(&c.hs) + 1.0 + c.lambda.abs());
            let want = [w.e_total(t), if c.ssize > 1 { w.e_sub(t) } else { f64::NAN }, m[0], m[1], m[2]];
            for k in 0..5 {
                let a = if k < 2 { allow * f } else { allow };
                if (r[k + 1] - want[k]).abs() > a {
                    let what = ["total energy", "subsystem energy", "m_x", "m_y", "m_z"][k];
                    self.bad(&["C20", "C12"], "sample-value", format!("{name} row {}: {what} is {} instead of {} at t={t} (allowed {a:e})", i + 1, r[k + 1], want[k]));
                    return;
                }
            }
        }
    }
    fn lang_checks(&mut self, m: &M, c: &Cfg, name: &str, rows: &[Vec<f64>], p: &Parsed, thin: u64) {
        let M::Lang(g) = m else { return };
        for (i, r) in rows.iter().enumerate() {
            if (r[1] - r[2]).abs() > 1e-9 || (r[5] - r[6]).abs() > 1e-9 {
                self.bad(&["C20"], "observable", format!("{name} row {}: subsystem and total columns differ although the chain is the subsystem", i + 1));
                return;
            }
        }
        let free = c.drive == "none" && c.hvar == 0.0 && c.hfield == [0.0; 3] && c.hs == [0.0; 3];
        if *g == 0.0 && free {
            if let Some((i, r)) = rows.iter().enumerate().find(|(_, r)| (r[1] - rows[0][1]).abs() > 1e-8 * (1.0 + rows[0][1].abs())) {
                self.bad(&["C16", "C13"], "energy-drift", format!("{name} row {}: energy {} instead of {} without coupling to the baths", i + 1, r[1], rows[0][1]));
                return;
            }
        }
        if free && p.beta.map_or(false, |b| b >= 1e14) && c.jvar < 0.5 {
            for i in 1..rows.len() {
                if rows[i][1] > rows[i - 1][1] + 2e-6 {
                    self.bad(&["C16"], "zero-temperature-heating", format!("{name} row {}: energy rises from {} to {} at zero temperature", i + 1, rows[i - 1][1], rows[i][1]));
                    return;
                }
            }
        }
        if let Some(dir) = aligned_start(c, p, thin, &[0.0, 0.0, 0.0, rows[0][3], rows[0][4], rows[0][5]]) { self.trajectory(m, c, name, rows, dir); }
    }
    fn ext_log(&mut self, c: &Cfg, name: &str, b: &[u8], p: &Parsed, thin: u64) {
        let Ok(s) = std::str::from_utf8(b) else { self.incomplete("C01", "log-rows", format!("{name} is not text")); return };
        if !s.ends_with('\n') { self.incomplete("C01", "log-rows", format!("{name} is cut off")); return; }
        let mut lines = s.lines();
        let first = table(format!("{}\n", lines.next().unwrap_or("")).as_bytes());
        let first = match first { Ok(f) if f[0].len() == 13 && (f[0][0] + c.trel).abs() <= 1e-9 * (1.0 + c.trel.abs()) => f[0].clone(),
            _ => { self.incomplete("C01", "log-rows", format!("{name}: the initial row is missing")); return } };
        let per = (c.ssize.min(c.hsize - 1) - 1).max(0) as usize;
        let mut blocks: Vec<Vec<Vec<f64>>> = vec![];
        let mut cur: Vec<Vec<f64>> = vec![];
        for l in lines {
            if l.trim().is_empty() { blocks.push(std::mem::take(&mut cur)); continue; }
            match l.split_whitespace().map(|w| w.parse::<f64>().ok()).collect::<Option<Vec<f64>>>() {
                Some(v) if v.len() == 6 => cur.push(v),
                _ => { self.incomplete("C01", "log-rows", format!("{name}: bad row {l:?}")); return }
            }
        }
        if !cur.is_empty() { self.incomplete("C01", "log-rows", format!("{name}: the last block is not ended")); return; }
        for (i, bl) in blocks.iter().enumerate() {
            if bl.len() != per || bl.iter().enumerate().any(|(j, r)| r[1] != (j + 1) as f64 || r[0] != bl[0][0]) {
                self.incomplete("C01", "log-rows", format!("{name}: block {} is not one row for each site 1..{per} at one time", i + 1));
                return;
            }
        }
        let all: Vec<Vec<f64>> = blocks.iter().flatten().cloned().collect();
        self.finite(name, &all);
        for (i, r) in all.iter().enumerate() { if !self.unit(name, i, &r[3..6]) { return; } }
        if per > 0 {
            let ts: Vec<f64> = blocks.iter().map(|b| b[0][0]).collect();
            if let Some(e) = grid(&ts, -c.trel, c.t, c.dt, c.strob, c.tau) {
                self.incomplete("C01", "log-rows", format!("{name} (t0={} t={} dt={} strob={} tau={}): {e}", -c.trel, c.t, c.dt, c.strob, c.tau));
                return;
            }
            // the local energy of a site whose neighbours are in the profile too
            if c.jvar == 0.0 && c.hvar == 0.0 {
                let x = Mini::aligned(c, [1.0, 0.0, 0.0]);
                for bl in &blocks {
                    for j in 1..per.saturating_sub(1) {
                        let d = x.h_ext(bl[0][0]);
                        let sp = |q: usize| [bl[q][3], bl[q][4], bl[q][5]];
                        let jv = [1.0, 1.0, c.lambda];
                        let e = -0.5 * (mini::dot(&sp(j - 1), &mini::jmul(&jv, &sp(j))) + mini::dot(&sp(j), &mini::jmul(&jv, &sp(j + 1))))
                            + mini::dot(&x.b(j + 1, &d), &sp(j));
                        if (e - bl[j][2]).abs() > 1e-8 * (1.0 + e.abs()) {
                            self.bad(&["C20"], "local-energy", format!("{name} t={} site {}: local energy {} instead of {e}", bl[0][0], j + 1, bl[j][2]));
                            return;
                        }
                    }
                }
            }
            if let Some(dir) = aligned_start(c, p, thin, &first) {
                let mut w = Mini::aligned(c, dir);
                let (mut s, mut o) = (w.clone(), w.clone());
                let (mut step, mut tol) = (0u64, 0f64);
                for bl in &blocks {
                    let target = ((bl[0][0] + c.trel) / c.dt).round() as u64;
                    while step < target {
                        let t = -c.trel + step as f64 * c.dt;
                        w.rk4(t, c.dt, 8); s.split(t, c.dt, 0, 0.5); o.split(t, c.dt, 1, 0.5);
                        step += 1;
                        tol = tol.max(5.0 * w.dist(&s).max(w.dist(&o)) * (1.0 + 0.02 * t.abs()));
                    }
                    let allow = tol + 1e-6 + 1e-2 * c.dt.powi(2);
                    if allow > 0.2 { return; }
                    for (j, r) in bl.iter().enumerate() {
                        for k in 0..3 {
                            if (r[3 + k] - w.s[j + 1][k]).abs() > allow {
                                self.bad(&["C12", "C20"], "trajectory", format!("{name} t={} site {}: {} instead of {}", r[0], j + 1, r[3 + k], w.s[j + 1][k]));
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    fn two_point_undefined(&self, cfg: &Cfg, r: &Res) -> bool {
        r.before.iter().any(|(n, b)| {
            n.starts_with(&cfg.file) && n.ends_with(".dat") && {
                let rows = complete_rows(b);
                !rows.is_empty() && !rows.iter().any(|x| x.first().map_or(false, |t| t.abs() < 1e-5)) || rows.iter().any(|x| x.is_empty())
            }
        })
    }
    /// outputs that are not logs
    fn mode(&mut self, m: &M, c: &Cfg, p: &Parsed, thin: u64, r: &Res) {
        for (name, cols, n) in append_files(m, c) {
            let prop = if matches!(m, M::Fit(..)) { "C17" } else { "C02" };
            let timed = matches!(m, M::Tau(..) | M::Traj(_));
            let old = r.before.get(&name).map(|x| x.as_ref().clone()).unwrap_or_default();
            let Some(new) = r.after.get(&name).cloned() else {
                self.incomplete(prop, "file-missing", format!("{name} does not exist"));
                if timed { self.bad(&["C22"], "file-missing", format!("{name} does not exist")); }
                return
            };
            if !new.starts_with(&old) { self.incomplete(prop, "old-rows-lost", format!("{name} does not start with its earlier content")); return; }
            let mut tail = &new[old.len()..];
            if !old.is_empty() && old.last() != Some(&b'\n') {
                if tail.first() != Some(&b'\n') {
                    self.incomplete(prop, "row-glued", format!("{name}: the first new row was written onto a row cut off earlier"));
                    return;
                }
                tail = &tail[1..];
            }
            let rows = match table(tail) { Ok(t) => t, Err(e) => { self.incomplete(prop, "rows", format!("{name}: {e}")); return } };
            if rows.len() != n {
                self.incomplete(prop, "row-count", format!("{name} gained {} rows instead of {n}", rows.len()));
                if timed { self.bad(&["C22"], "row-count", format!("{name} gained {} rows instead of {n}", rows.len())); }
                return;
            }
            if let Some(x) = rows.iter().find(|x| x.len() != cols) { self.incomplete(prop, "rows", format!("{name}: a row has {} columns instead of {cols}", x.len())); return; }
            self.finite(&name, &rows);
            self.samples(m, c, p, thin, &name, &rows, r);
        }
        let prof = |w: &mut Self, name: &str, pts: i64| -> Option<Vec<Vec<f64>>> {
            let Some(b) = r.after.get(name).cloned() else { w.incomplete("C03", "file-missing", format!("{name} does not exist")); return None };
            let rows = match table(&b) { Ok(t) => t, Err(e) => { w.incomplete("C03", "rows", format!("{name}: {e}")); return None } };
            if rows.len() as i64 != c.hsize || rows.iter().enumerate().any(|(i, x)| x.len() != 5 || x[0] != i as f64) {
                w.incomplete("C03", "rows", format!("{name} is not one row of 5 columns for each of the {} sites in order", c.hsize));
                return None;
            }
            w.finite(name, &rows);
            for (i, x) in rows.iter().enumerate() {
                let l = mini::norm(&[x[2], x[3], x[4]]);
                if l > 1.0 + 1e-9 || (pts == 1 && (l - 1.0).abs() > 1e-9) {
                    w.bad(&["C03"], "profile-value", format!("{name} site {i}: mean spin of length {l} over {pts} samples"));
                    return None;
                }
            }
            let isotropic = c.lambda == 1.0 && c.jvar == 0.0;
            if pts == 1 && isotropic {
                let n = rows.len();
                for i in 0..n {
                    let s = |q: usize| [rows[q % n][2], rows[q % n][3], rows[q % n][4]];
                    let e = -0.5 * (mini::dot(&s(i), &s(i + 1)) + mini::dot(&s(i), &s(i + n - 1)));
                    if (e - rows[i][1]).abs() > 1e-8 {
                        w.bad(&["C03", "C20"], "profile-value", format!("{name} site {i}: energy {} but the spins of this profile give {e}", rows[i][1]));
                        return None;
                    }
                }
            }
            // whatever the couplings, every bond adds half of itself to both of its sites: on an even ring the
            // alternating sum of the site energies vanishes in every sample, and so in their mean
            if rows.len() % 2 == 0 {
                let alt: f64 = rows.iter().enumerate().map(|(i, x)| if i % 2 == 0 { x[1] } else { -x[1] }).sum();
                let size: f64 = rows.iter().map(|x| x[1].abs()).sum::<f64>() + (1.0 + 5.0 * c.jvar.abs()) * (1.0 + c.lambda.abs());
                if alt.abs() > 1e-9 * size {
                    w.bad(&["C03"], "profile-value", format!("{name}: the site energies have the alternating sum {alt:e}, so they are not halves of shared bonds"));
                    return None;
                }
            }
            Some(rows)
        };
        let all_parallel = p.beta.map_or(false, |b| b >= 1e14) && thin > 25_000_000 && c.jvar == 0.0;
        match m {
            M::McProf => {
                if let Some(rows) = prof(self, "mc_profile.dat", c.mc_points) {
                    let pinned = p.beta.map_or(false, |b| b >= 1e3 && b < 1e14) && thin <= 300;
                    for (i, x) in rows.iter().enumerate() {
                        let s = [x[2], x[3], x[4]];
                        if all_parallel {
                            if (mini::norm(&s) - 1.0).abs() > 1e-6 || (x[1] + (c.lambda * s[2] * s[2] + s[0] * s[0] + s[1] * s[1])).abs() > 1e-6 {
                                self.bad(&["C03"], "profile-value", format!("mc_profile.dat site {i}: every sample is the same, but the mean is {s:?} with energy {} ({} points, {} threads)", x[1], c.mc_points, c.threads));
                                return;
                            }
                        } else if pinned {
                            let mut h = c.hfield;
                            if (i as i64) < c.ssize { h = mini::add(&h, &c.hs, 1.0); }
                            let l = mini::norm(&h);
                            if l < 30.0 { continue; }
                            let d = -mini::dot(&h, &s) / l;
                            if d < 0.85 || d > 1.0 + 1e-9 {
                                self.bad(&["C03"], "profile-value", format!("mc_profile.dat site {i}: mean spin along its strong field is {d} ({} points, {} threads)", c.mc_points, c.threads));
                                return;
                            }
                        }
                    }
                }
            }
            M::DynProf => {
                for k in 1..=8 {
                    let name = format!("dyn_profile-{}-tau.dat", k * 500);
                    let Some(rows) = prof(self, &name, c.runs) else { continue };
                    if rows.len() >= 32 && c.runs >= 4 && p.beta.map_or(false, |b| b >= 1e14) && thin > 25_000_000 && c.jvar > 0.0 && c.jvar < 0.1
                        && c.hvar == 0.0 && c.drive == "none" && c.hs == [0.0; 3] && c.hfield == [0.0; 3] && c.lambda == 1.0 {
                        // parallel spins stay parallel, and the energy of a site is that of its two bonds
                        let n = rows.len() as f64;
                        let mean = rows.iter().map(|x| x[1]).sum::<f64>() / n;
                        let var = rows.iter().map(|x| (x[1] - mean).powi(2)).sum::<f64>() / (n - 1.0);
                        let ratio = var / (c.jvar * c.jvar / 2.0 / c.runs as f64);
                        if !(ratio < 3.0) {
                            self.bad(&["C18"], "repeated-randomness", format!("{name}: the site energies vary {ratio:.1} times as much as those of {} independent chains", c.runs));
                            return;
                        }
                    }
                    let uniform = all_parallel && c.hvar == 0.0 && c.drive == "none" && c.hs == [0.0; 3] && c.hfield[0] == 0.0 && c.hfield[1] == 0.0 && c.lambda == 1.0;
                    if !uniform { continue; }
                    for (i, x) in rows.iter().enumerate() {
                        if (mini::norm(&[x[2], x[3], x[4]]) - 1.0).abs() > 1e-6 || (x[1] + 1.0).abs() > 0.02 {
                            self.bad(&["C03"], "profile-value", format!("{name} site {i}: every run is the same, but the mean spin has length {} and energy {} ({} runs, {} threads)", mini::norm(&[x[2], x[3], x[4]]), x[1], c.runs, c.threads));
                            return;
                        }
                    }
                    // the uniform precession about the field is a clock
                    let n = ((500.0 * k as f64 * c.tau + c.trel) / c.dt).round();
                    let mut s = Mini::aligned(c, [0.01f64.cos(), 0.01f64.sin(), 0.0]);
                    s.n = 2; s.ss = 2; s.s.truncate(2); s.j.truncate(2); s.h.truncate(2);
                    let mut o = s.clone();
                    for q in 0..n as u64 { let t = -c.trel + q as f64 * c.dt; s.split(t, c.dt, 0, 0.5); o.split(t, c.dt, 1, 0.5); }
                    let h = c.hfield[2].abs();
                    let exact = 0.01 + c.hfield[2] * (n * c.dt);
                    let rk = [exact.cos(), exact.sin(), 0.0];
                    let allow = 1.5 * h * c.dt + 1e-4;
                    let x = &rows[0];
                    let g = [x[2], x[3], x[4]];
                    let near = |w: &V| mini::norm(&mini::add(&g, w, -1.0)) <= allow;
                    if allow < 0.3 && !near(&s.s[0]) && !near(&o.s[0]) && !near(&rk) {
                        let ph = g[1].atan2(g[0]);
                        self.bad(&["C22", "C03"], "sample-time", format!("{name}: the spins have precessed to phase {ph}, not to that of {} periods of {} (dt {})", k * 500, c.tau, c.dt));
                        return;
                    }
                }
            }
            M::Avg => self.average(c, r),
            M::TwoPoint => self.two_point(c, r),
            _ => {}
        }
    }
    fn samples(&mut self, m: &M, c: &Cfg, p: &Parsed, thin: u64, name: &str, rows: &[Vec<f64>], r: &Res) {
        // without Monte-Carlo updates a cold clean chain starts with all spins parallel, close to the x axis
        let cold = if matches!(m, M::Tau(..)) { c.beta >= 1e14 } else { p.beta.map_or(false, |b| b >= 1e14) };
        if cold && c.jvar == 0.0 && c.hvar == 0.0 && (thin > 25_000_000 || matches!(m, M::DynHist(_) | M::Traj(_))) {
            let dir = [0.01f64.cos(), 0.01f64.sin(), 0.0];
            match m {
                M::Mc | M::McMagnus => {
                    let w = Mini::aligned(c, dir);
                    // the subsystem as a closed chain, without the drive
                    let st = mini::add(&c.hfield, &c.hs, 1.0);
                    let es = -mini::dot(&dir, &mini::jmul(&[1.0, 1.0, c.lambda], &dir)) + mini::dot(&dir, &st);
                    for (i, x) in rows.iter().enumerate() {
                        let want = [w.e_total(-c.trel), es, dir[0], dir[1], dir[2], dir[0], dir[1], dir[2], dir[0], dir[1], dir[2]];
                        if let Some(k) = (0..11).find(|k| !((x[*k] - want[*k]).abs() < 1e-6 * (1.0 + want[*k].abs()))) {
                            self.bad(&["C20", "C02"], "sample-value", format!("{name} row {}: value {} is {} instead of {}", i + 1, k + 1, x[k], want[k]));
                            return;
                        }
                    }
                }
                M::DynHist(_) => {
                    let steps = c.t / c.dt;
                    if (0.05..0.45).contains(&steps.fract()) {
                        let t = steps.floor() * c.dt - c.trel;
                        let q: Vec<[f64; 6]> = rows.iter().map(|x| [t, f64::NAN, x[4], x[1], x[2], x[3]]).collect();
                        self.evolved(c, dir, name, &q);
                    }
                }
                M::Traj(_) => {
                    let q: Vec<[f64; 6]> = rows.iter().map(|x| [x[0], f64::NAN, x[4], x[1], x[2], x[3]]).collect();
                    self.evolved(c, dir, name, &q);
                }
                M::Tau(..) => for x in rows {
                    let mut c = c.clone();
                    c.tau = x[0];
                    c.dt = if x[0] < 10.0 { x[0] / 100.0 } else { 0.1 };
                    self.evolved(&c, dir, name, &[[x[1], x[2], x[3], x[4], x[5], x[6]]]);
                },
                _ => {}
            }
        }
        match m {
            M::Mc | M::McMagnus | M::MagHist(_) | M::Hist(_) => {
                for (i, x) in rows.iter().enumerate() {
                    let o = 5;
                    if !self.unit(name, i, &x[o..o + 3]) || !self.unit(name, i, &x[o + 3..o + 6]) { return; }
                    if c.ssize == 2 {
                        let mo = if matches!(m, M::MagHist(_) | M::Hist(_)) { 1 } else { 2 };
                        for k in 0..3 {
                            if (x[mo + k] - 0.5 * (x[o + k] + x[o + 3 + k])).abs() > 1e-9 {
                                self.bad(&["C20", "C02"], "magnetisation", format!("{name} row {}: magnetisation is not that of the two spins in the row", i + 1));
                                return;
                            }
                        }
                    }
                }
            }
            M::Tau(taus, steps) => {
                let mut want: Vec<f64> = taus.clone();
                for x in rows {
                    let Some(i) = want.iter().position(|t| (t - x[0]).abs() < 1e-9 * (1.0 + t.abs())) else {
                        self.incomplete("C02", "rows", format!("{name}: unexpected period {}", x[0]));
                        self.bad(&["C22"], "sample-period", format!("{name}: unexpected period {}", x[0]));
                        return;
                    };
                    let tau = want.remove(i);
                    let dt = if tau < 10.0 { tau / 100.0 } else { 0.1 };
                    let end = *steps as f64 * tau;
                    if x[1] < end - dt * 1.001 - 1e-6 || x[1] > end + dt * 1.001 + 1e-6 {
                        self.bad(&["C22"], "sample-time", format!("{name}: tau={tau} was evolved to t={} instead of {steps} periods, {end}", x[1]));
                    }
                }
            }
            M::Traj(n) => {
                for (i, x) in rows.iter().enumerate() {
                    let want = (30.0 + (i + 1) as f64) * c.tau;
                    // the first sample may be the one that ends the warm-up
                    let alt = (30.0 + i as f64) * c.tau;
                    let tol = c.dt * 1.001 + 1e-6;
                    let ok = (x[0] - want).abs() <= tol || (x[0] - alt).abs() <= tol && (rows[0][0] - 30.0 * c.tau).abs() <= tol;
                    if !ok {
                        self.bad(&["C22"], "sample-time", format!("{name}: sample {} of {n} is at t={} instead of period {} (t={want}, dt={})", i + 1, x[0], 31 + i, c.dt));
                        return;
                    }
                    let uniform = p.beta.map_or(false, |b| b >= 1e14) && c.jvar == 0.0 && c.hvar == 0.0 && c.drive == "none" && c.hs == [0.0; 3] && c.hfield[0] == 0.0 && c.hfield[1] == 0.0 && c.lambda == 1.0;
                    let ph = x[2].atan2(x[1]);
                    let exp = 0.01 + c.hfield[2] * (x[0] + c.trel);
                    let d = (ph - exp).rem_euclid(2.0 * std::f64::consts::PI);
                    let d = d.min(2.0 * std::f64::consts::PI - d);
                    if uniform && d > c.hfield[2].abs() * (c.dt * 0.6 + (x[0] + c.trel) * 0.5 * c.dt * c.dt) + 1e-3 {
                        self.bad(&["C22", "C20"], "sample-time", format!("{name}: sample {} says t={}, but the spins have precessed to phase {ph} instead of {exp}", i + 1, x[0]));
                        return;
                    }
                }
            }
            M::Fit(_, file, _, target) => self.fit(c, p, file, *target, &rows[0], thin),
            _ => {}
        }
        let _ = r;
    }
    fn fit(&mut self, c: &Cfg, p: &Parsed, file: &str, target: f64, row: &[f64], _thin: u64) {
        let _ = p;
        if file == "beta.dat" && (row[0] - target).abs() > 1e-9 {
            self.bad(&["C17"], "fit-row", format!("{file}: the row is for tau={} instead of {target}", row[0]));
        }
        if file != "beta.dat" && ((row[0] - c.tau).abs() > 1e-9 || (row[1] - target).abs() > 1e-9) {
            self.bad(&["C17"], "fit-row", format!("{file}: the row is for tau={} e={} instead of {} {target}", row[0], row[1], c.tau));
        }
    }
    fn average(&mut self, c: &Cfg, r: &Res) {
        let files: Vec<Vec<Vec<f64>>> = r.before.iter().filter(|(n, _)| n.starts_with(&c.file) && n.ends_with(".dat")).map(|(_, b)| complete_rows(b)).collect();
        self.compare_avg("avg.dat", r, mean_rows(&files));
    }
    fn two_point(&mut self, c: &Cfg, r: &Res) {
        if self.two_point_undefined(c, r) { return; }
        let files: Vec<Vec<Vec<f64>>> = r.before.iter().filter(|(n, _)| n.starts_with(&c.file) && n.ends_with(".dat")).map(|(_, b)| {
            let rows = complete_rows(b);
            let zero = rows.iter().rev().find(|x| x[0].abs() < 1e-5).cloned().unwrap_or_default();
            rows.iter().map(|x| x.iter().enumerate().map(|(i, v)| if i == 0 { *v } else { v * zero[i] }).collect()).collect()
        }).collect();
        self.compare_avg("two-point.dat", r, mean_rows(&files));
    }
    fn compare_avg(&mut self, name: &str, r: &Res, want: Vec<Vec<f64>>) {
        let Some(b) = r.after.get(name) else { self.incomplete("C08", "file-missing", format!("{name} does not exist")); return };
        let got = match table(b) { Ok(g) => g, Err(e) => { self.incomplete("C08", "rows", format!("{name}: {e}")); return } };
        if got.len() != want.len() { self.incomplete("C08", "row-count", format!("{name} has {} rows instead of {}", got.len(), want.len())); return; }
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            if g.len() != w.len() { self.incomplete("C08", "rows", format!("{name} row {} has {} columns instead of {}", i + 1, g.len(), w.len())); return; }
            for k in 0..w.len() {
                if (g[k] - w[k]).abs() > 1e-9 * (1.0 + w[k].abs()) {
                    self.bad(&["C08"], "average-value", format!("{name} row {} column {}: {} instead of {}", i + 1, k + 1, g[k], w[k]));
                    if self.after_fault && !self.faulty { self.bad(&["C19"], "average-value", format!("{name} row {} column {}: {} instead of {}", i + 1, k + 1, g[k], w[k])); }
                    return;
                }
            }
        }
    }
    fn phys(&mut self, args: &[String], r: &Res) {
        let mut told = false;
        for l in r.stdout.lines() {
            if let Some(x) = l.strip_prefix("FAIL ") {
                let (prop, rest) = x.split_once(' ').unwrap_or((x, ""));
                let (class, d) = rest.split_once(' ').unwrap_or((rest, ""));
                self.bad(&[prop], class, d.to_string());
                told = true;
            }
        }
        if r.outcome != Outcome::Ok && !told {
            let tail: String = r.stderr.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
            self.v.push(Viol { prop: self.sc.prop.clone(), class: "library-failed".into(), detail: format!("{} ended with {:?}: {tail}", args.join(" "), r.outcome) });
        }
    }
}
/// Without any Monte-Carlo update and at (numerically) zero temperature a clean chain starts parallel.
fn aligned_start(c: &Cfg, p: &Parsed, thin: u64, row: &[f64]) -> Option<V> {
    if !(p.beta.map_or(false, |b| b >= 1e14) && thin > 25_000_000 && c.jvar == 0.0 && c.hvar == 0.0) { return None; }
    let v = [row[3], row[4], row[5]];
    if (mini::norm(&v) - 1.0).abs() < 1e-6 { Some(v) } else { None }
}
pub fn complete_rows(b: &[u8]) -> Vec<Vec<f64>> {
    let s = String::from_utf8_lossy(b);
    s.split_inclusive('\n').filter(|l| l.ends_with('\n')).skip(1)
        .map(|l| l.split_whitespace().filter_map(|w| w.parse().ok()).collect()).collect()
}
fn mean_rows(files: &[Vec<Vec<f64>>]) -> Vec<Vec<f64>> {
    let n = files.iter().map(|f| f.len()).max().unwrap_or(0);
    (0..n).map(|i| {
        let rs: Vec<&Vec<f64>> = files.iter().filter_map(|f| f.get(i)).collect();
        let w = rs.iter().map(|r| r.len()).min().unwrap_or(0);
        (0..w).map(|k| rs.iter().map(|r| r[k]).sum::<f64>() / rs.len() as f64).collect()
    }).collect()
}
/// the files a mode appends to: name, columns, rows per invocation
pub fn append_files(m: &M, c: &Cfg) -> Vec<(String, usize, usize)> {
    match m {
        M::Mc | M::McMagnus => vec![("mc_live.dat".into(), 11, c.mc_points as usize)],
        M::DynHist(n) => vec![(format!("dyn-hist-t-{}.dat", c.t), 5, *n)],
        M::Tau(t, s) => vec![(format!("evt{s}.dat"), 7, t.len())],
        M::Traj(n) => vec![(format!("hist-st-t-{}.dat", c.t), 5, *n)],
        M::MagHist(n) => vec![("hist_mc_magnus.dat".into(), 11, *n)],
        M::Hist(n) => vec![("hist_mc.dat".into(), 11, *n), ("hist_dyn.dat".into(), 11, *n)],
        M::Fit(_, f, cols, _) => vec![(f.to_string(), *cols, 1)],
        _ => vec![],
    }
}
