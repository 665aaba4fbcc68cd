//! Scenario generators, one per property.  A generator executes while it builds, because a fault is placed
//! relative to the operations a fault-free execution of the same plan performs.
use crate::cfgfile::{Cfg, KEYS};
use crate::rng::Rng;
use crate::sim::*;

pub struct B<'a> {
    pub r: &'a mut Runner,
    pub g: Rng,
    pub sc: Scenario,
    pub res: Vec<Option<Res>>,
    pub thorough: bool,
    pub has_phys: bool,
    /// the next sampling mode to take
    force: Option<u64>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Want { Crash, Hard, Benign }

pub const COLD: u64 = 1_000_000_000_000_000;

pub fn generate<'a>(r: &'a mut Runner, prop: &str, seed: u64, n: u64, thorough: bool, has_phys: bool) -> (Scenario, Vec<Option<Res>>) {
    r.clear();
    let mut b = B { r, g: Rng::new(seed, prop, n), sc: Scenario { prop: prop.into(), label: format!("seed {seed} scenario {n}"), steps: vec![] }, res: vec![], thorough, has_phys, force: None };
    match prop {
        "C01" => b.c01(),
        "C02" => b.c02(),
        "C03" => b.c03(),
        "C04" => b.c04(),
        "C05" => b.c05(),
        "C06" => b.c06(),
        "C07" => b.c07(),
        "C08" => b.c08(),
        "C09" => b.c09(),
        "C10" => b.c10(),
        "C11" => b.c11(n),
        "C12" | "C13" | "C16" | "C20" => b.dynamics(n),
        "C14" | "C15" | "C21" => b.stats(n),
        "C17" => b.c17(n),
        "C18" => b.c18(n),
        "C19" => b.c19(),
        "C22" => b.c22(n),
        _ => panic!("no generator for {prop}"),
    }
    (b.sc, b.res)
}

impl<'a> B<'a> {
    // ------------------------------------------------------------------ building blocks
    pub fn put(&mut self, name: &str, content: Option<Vec<u8>>) {
        let s = Step::Edit { name: name.into(), content };
        self.res.push(self.r.exec(&s));
        self.sc.steps.push(s);
    }
    fn go(&mut self, prog: Prog, thin: u64, args: &[String], plan: Plan, powerloss: Option<u64>) -> Outcome {
        let s = Step::Run { prog, thin, args: args.to_vec(), plan, powerloss };
        let r = self.r.exec(&s);
        let o = r.as_ref().unwrap().outcome.clone();
        self.res.push(r);
        self.sc.steps.push(s);
        o
    }
    fn last(&self) -> &Res {
        self.res.last().unwrap().as_ref().unwrap()
    }
    pub fn plan(&mut self) -> Plan {
        let g = &mut self.g;
        let policy = match g.below(20) {
            0 | 1 => "seq".to_string(),
            2..=9 => format!("rw {}", g.pick(&[10u64, 50, 200, 500, 900])),
            10..=16 => format!("pct {} {}", g.range(1, 5), g.pick(&[100u64, 300, 1000, 3000])),
            _ => format!("starve {}", g.below(7)),
        };
        Plan {
            seed: g.u64() >> 1,
            entropy: g.u64() >> 1,
            policy,
            maxsteps: 3_000_000,
            tty: g.chance(250),
            tick: *g.pick(&[1u64, 1000, 1_000_000, 100_000_000, 2_000_000_000]),
            spurious: if g.chance(250) { *g.pick(&[10u64, 100]) } else { 0 },
            shuffledir: g.chance(500),
            faults: vec![],
            devs: vec![],
        }
    }
    fn clean(&mut self, thin: u64, args: &[String]) -> Outcome {
        let p = self.plan();
        self.go(Prog::Sc, thin, args, p, None)
    }
    /// which faults make sense at an operation
    fn kinds(want: Want, class: &str) -> &'static [&'static str] {
        match (want, class) {
            (Want::Crash, "write") => &["crash-before", "crash-torn", "crash-torn", "crash-after"],
            (Want::Crash, "open" | "fsync" | "rename" | "unlink" | "read") => &["crash-before", "crash-after"],
            (Want::Crash, "close" | "thread") => &["crash-before"],
            (Want::Hard, "open") => &["enospc", "emfile", "eacces", "eio"],
            (Want::Hard, "write") => &["enospc", "enospc", "eio"],
            (Want::Hard, "read") => &["eio"],
            (Want::Hard, "fsync") => &["eio", "enospc"],
            (Want::Hard, "rename") => &["eio", "enospc", "eacces"],
            (Want::Hard, "thread") => &["eagain"],
            (Want::Benign, "write" | "read") => &["eintr", "short", "stall", "clockjump"],
            (Want::Benign, "open") => &["eintr", "stall", "clockjump"],
            (Want::Benign, "fsync" | "rename" | "close") => &["stall", "clockjump"],
            _ => &[],
        }
    }
    /// a fault at a point a baseline execution passes: uniformly over (class, file), then over its occurrences
    fn fault(&mut self, t: &Trace, want: Want, only: &dyn Fn(&str) -> bool) -> Option<Fault> {
        let mut pts: Vec<(String, String, u64)> = vec![];
        for o in &t.ops {
            let c = OP_NAMES[o.cls as usize];
            let f = &t.files[o.file as usize];
            if !["open", "write", "read", "fsync", "rename", "unlink", "close"].contains(&c) || !only(f) || Self::kinds(want, c).is_empty() { continue; }
            match pts.iter_mut().find(|p| p.0 == c && p.1 == *f) {
                Some(p) => p.2 += 1,
                None => pts.push((c.into(), f.clone(), 1)),
            }
        }
        if t.threads > 1 && only("thread") && !Self::kinds(want, "thread").is_empty() {
            pts.push(("thread".into(), "thread".into(), t.threads as u64 - 1));
        }
        if pts.is_empty() { return None; }
        let (c, f, n) = self.g.pick(&pts).clone();
        let k = *self.g.pick(Self::kinds(want, &c));
        let nth = match self.g.below(6) { 0 => 0, 1 => n - 1, _ => self.g.below(n) };
        let sticky = match k { "enospc" | "emfile" => self.g.chance(500), "short" => self.g.chance(500), "eio" => self.g.chance(200), _ => false };
        let arg = match k {
            "crash-torn" => self.g.range(1, 999) as u64,
            "short" => self.g.range(1, 999) as u64,
            "enospc" if c == "write" && self.g.chance(500) => self.g.range(1, 999) as u64,
            "stall" => *self.g.pick(&[10u64, 1000, 100_000, 5_000_000]),
            "clockjump" => *self.g.pick(&[1u64, 1000, 3_600_000, 400_000_000]),
            _ => 0,
        };
        // sometimes the whole disk is concerned and not one file
        let prefix = if sticky && ["enospc", "emfile"].contains(&k) && self.g.chance(400) { "*".to_string() } else { f.clone() };
        let nth = if prefix == "*" { let m = t.count(&c, "*").max(1); self.g.below(m) } else { nth };
        Some(Fault::new(k, &c, &prefix, nth, sticky, arg))
    }
    /// run with a fault of the wanted kind somewhere; without one when there is no place for it
    fn faulted(&mut self, thin: u64, args: &[String], want: Want, power: bool, only: &dyn Fn(&str) -> bool) -> Outcome {
        let mut p = self.plan();
        let snap = self.r.snap();
        let base = self.r.run(&Prog::Sc, thin, args, &p, None);
        self.r.restore(&snap);
        let k = if want == Want::Benign { self.g.range(1, 4) } else { 1 };
        for _ in 0..k {
            if let Some(f) = self.fault(&base.trace, want, only) { p.faults.push(f); }
        }
        let pl = if power && want == Want::Crash { Some(self.g.u64() >> 1) } else { None };
        self.go(Prog::Sc, thin, args, p, pl)
    }
    fn maybe_benign(&mut self, thin: u64, args: &[String]) -> Outcome {
        if self.g.chance(300) { self.faulted(thin, args, Want::Benign, false, &|_| true) } else { self.clean(thin, args) }
    }
    fn config(&mut self, c: &Cfg) {
        // a user writes any subset that contains what differs from the defaults
        let d = Cfg::default();
        let extra = *self.g.pick(&[0u64, 300, 1000]);
        let keep: Vec<&str> = KEYS.iter().filter(|k| c.get(k) != d.get(k) || self.g.chance(extra)).cloned().collect();
        self.put("config.toml", Some(c.text(&keep)));
    }
    /// a configuration small enough to simulate, otherwise as varied as a user's
    pub fn cfg(&mut self) -> Cfg {
        let g = &mut self.g;
        let mut c = Cfg::default();
        c.hsize = *g.pick(&[2i64, 4, 4, 6, 8, 12, 16]);
        c.ssize = if g.chance(300) { c.hsize } else { g.range(2, c.hsize.max(2)) };
        c.dt = *g.pick(&[0.01, 0.02, 0.05, 0.1, 0.3, 0.25, 1.0 / 3.0, 0.007]);
        let steps = *g.pick(&[0i64, 1, 2, 5, 13, 30, 60]);
        c.t = steps as f64 * c.dt + *g.pick(&[0.0, 0.0, 0.5, 0.3, 1e-7]) * c.dt;
        c.trel = if g.chance(350) { g.range(1, 20) as f64 * c.dt * *g.pick(&[1.0, 1.0, 0.77]) } else { 0.0 };
        c.tau = c.dt * *g.pick(&[1.0, 1.5, 2.0, 3.7, 7.0, 10.0, 33.3, 100.0, 500.0]);
        c.lambda = *g.pick(&[1.0, 1.0, 0.5, 0.0, -1.0, 2.0]);
        if g.chance(300) { c.hfield = [g.uniform(-2.0, 2.0), g.uniform(-2.0, 2.0), g.uniform(-2.0, 2.0)]; }
        if g.chance(300) { c.hs = [g.uniform(-2.0, 2.0), 0.0, g.uniform(-2.0, 2.0)]; }
        c.jvar = *g.pick(&[0.0, 0.001, 0.1]);
        c.hvar = *g.pick(&[0.0, 0.0, 0.2]);
        c.ednsty = -(g.range(5, 95) as f64) / 100.0;
        c.strob = g.chance(300);
        c.drive = g.pick(&["xyplane", "xyelliptic", "uniaxial", "staticfield", "none"]).to_string();
        c.e = *g.pick(&[0.9, 0.0, 1.0, 0.3]);
        c.runs = *g.pick(&[1i64, 1, 2, 2, 3, 4, 5]);
        c.threads = if g.chance(250) { g.range(1, 17) } else { *g.pick(&[1i64, 1, 2, 2, 3, 4, 6]) };
        c.mc_points = if g.chance(250) { g.range(1, 40) } else { *g.pick(&[1i64, 2, 3, 5, 8, 13]) };
        c.offset = if g.chance(300) { g.range(1, 120) } else { 0 };
        if g.chance(20) { c.offset = *g.pick(&[65_534i64, 99_999, 3_000_000]); }
        c.file = g.pick(&["log", "log", "log", "run_", "out-", "L", "tr.a"]).to_string();
        c.method = *g.pick(&[2i64, 2, 2, 1]);
        // a long chain now and then, with little else to do
        if g.chance(20) {
            c.hsize = *g.pick(&[64i64, 130, 256, 258, 300]);
            c.ssize = *g.pick(&[c.hsize, c.hsize / 2, 6]);
            c.t = c.t.min(8.0 * c.dt);
            c.trel = c.trel.min(5.0 * c.dt);
        }
        c
    }
    fn batch_args(&mut self, c: &mut Cfg) -> Vec<String> {
        match self.g.below(20) {
            0..=8 => vec![],
            9..=12 => {
                if c.ssize % 2 == 1 { c.ssize += 1; }
                if c.hsize < c.ssize { c.hsize = c.ssize; }
                let mut a = vec!["-l".to_string()];
                if self.g.chance(600) { a.push(self.g.pick(&["0", "0.1", "1", "3"]).to_string()); }
                a
            }
            13..=15 => vec!["--response".into()],
            _ => vec!["-e".into()],
        }
    }
    fn overrides(&mut self, c: &Cfg, a: &mut Vec<String>) {
        if self.g.chance(300) { a.push("-t".into()); a.push(format!("{}", c.dt * *self.g.pick(&[1.0, 2.5, 7.0, 50.0]))); }
        if self.g.chance(300) { a.push("-b".into()); a.push(self.g.pick(&["0.5", "1", "2.88", "10"]).to_string()); }
    }
    fn thin_batch(&mut self) -> u64 {
        *self.g.pick(&[1_000_000u64, 1_000_000, 100_000, COLD])
    }
    /// a sampling mode with few samples; returns its arguments and thinning
    fn sampling(&mut self, c: &mut Cfg) -> (Vec<String>, u64) {
        let n = if self.g.chance(300) { self.g.range(1, 40) } else { *self.g.pick(&[1i64, 2, 3, 5, 8, 13, 21]) };
        let forced = self.force.is_some();
        let k = match self.force.take() { Some(k) => k, None => self.g.below(16) };
        if !forced && self.g.chance(8) {
            // as many samples as documented without a number
            c.hsize = 4; c.ssize = 4; c.tau = c.dt; c.t = c.dt * 3.0; c.trel = 0.0;
            return match self.g.below(3) { 0 => (vec!["-d".into()], 1), 1 => (vec!["-s".into()], 1), _ => (vec!["--magnus-hist".into()], 10_000) };
        }
        match k {
            0..=4 => { c.mc_points = n; (vec!["-m".into()], *self.g.pick(&[1_000_000u64, 100_000, 10_000])) }
            5 | 6 => { c.mc_points = n; if c.hsize < 4 { c.hsize = 4; } (vec!["--monte-carlo-magnus".into()], *self.g.pick(&[1_000_000u64, 100_000])) }
            7 => { if c.hsize < 4 { c.hsize = 4; } (vec!["--magnus-hist".into(), n.to_string()], *self.g.pick(&[10_000u64, 1000])) }
            8..=11 => (vec!["-d".into(), n.to_string()], 1),
            12 => {
                c.tau = c.dt * *self.g.pick(&[1.0, 1.5, 2.0, 3.7]);
                (vec!["-s".into(), n.to_string()], 1)
            }
            13 => {
                // opposite strong fields make the start the histogram waits for reachable
                c.hsize = 4; c.ssize = 2; c.lambda = 1.0; c.jvar = 0.0; c.hvar = 0.0;
                c.hfield = [0.0, 0.0, 5.0]; c.hs = [0.0, 0.0, -10.0]; c.ednsty = -5.0;
                (vec!["-b".into(), "100000000".into(), "--histogram".into(), self.g.range(1, 4).to_string()], 1)
            }
            _ => {
                let mut a = vec![];
                let taus = [0.04, 0.5, 1.0, 2.0, 3.3, 5.0, 9.99, 10.0, 12.5];
                for _ in 0..self.g.range(1, 4) { a.push("-n".into()); a.push(format!("{}", self.g.pick(&taus))); }
                a.push("--steps".into());
                a.push(self.g.range(1, 6).to_string());
                (a, self.thin_batch())
            }
        }
    }
    fn profile(&mut self, c: &mut Cfg) -> (Vec<String>, u64) {
        if self.g.chance(700) {
            c.mc_points = if self.g.chance(300) { self.g.range(1, 40) } else { *self.g.pick(&[1i64, 2, 3, 5, 8, 13]) };
            (vec!["-p".into()], *self.g.pick(&[1_000_000u64, 100_000]))
        } else {
            self.short_dyn(c);
            (vec!["-P".into()], self.thin_batch())
        }
    }
    fn short_dyn(&mut self, c: &mut Cfg) {
        if c.hsize > 6 { c.hsize = 4; }
        c.ssize = c.ssize.min(c.hsize);
        c.dt = *self.g.pick(&[0.05, 0.1, 0.02]);
        c.tau = c.dt * *self.g.pick(&[1.0, 1.5, 2.0, 3.7, 2.5]);
        c.trel = if self.g.chance(300) { c.dt * self.g.range(1, 9) as f64 } else { 0.0 };
        c.runs = *self.g.pick(&[1i64, 2, 3]);
    }
    fn fitting(&mut self, c: &mut Cfg) -> (Vec<String>, u64) {
        if c.hsize > 6 { c.hsize = 4; }
        c.hsize = c.hsize.max(4);
        c.ssize = c.ssize.clamp(2, c.hsize);
        // a target may be out of reach: the search still ends
        let e = self.g.pick(&["-0.5", "-0.5", "-0.5", "-0.1", "-0.9", "-3", "1", "8"]).to_string();
        match self.g.below(7) {
            0 => (vec!["-f".into(), e], 100),
            1 => (vec!["-F".into(), e], 100),
            2 => (vec!["-H".into(), e], 100),
            3 => { if self.g.chance(200) && c.ednsty > -1.0 { c.ednsty = *self.g.pick(&[-3.0, 1.0, -0.1]); } (vec!["-D".into(), "3".into()], 100) }
            4 => (vec!["-r".into(), e], 1000),
            5 => (vec![format!("--magnus-fit={e}")], 1000),
            _ => { c.dt = 0.1; c.runs = self.g.range(1, 9); c.trel = 0.0; (vec!["-A".into(), self.g.pick(&["0.3", "0.2", "0.1", "0.25"]).to_string()], 10_000) }
        }
    }
    /// modes which only look at files
    fn analysis(&mut self) -> Vec<String> {
        vec![self.g.pick(&["-a", "--two-point", "--config-desc"]).to_string()]
    }
    /// any mode at all
    fn any_mode(&mut self, c: &mut Cfg) -> (Vec<String>, u64) {
        if self.g.chance(80) { return (self.analysis(), 1); }
        // either as often as they are used, or every mode as often as every other
        if self.g.chance(500) {
            return match self.g.below(20) {
                k @ 0..=6 => { self.force = Some([0, 5, 7, 8, 12, 13, 14][k as usize]); self.sampling(c) }
                7..=11 => self.fitting(c),
                12..=14 => self.profile(c),
                _ => { let a = self.batch_args(c); (a, self.thin_batch()) }
            };
        }
        match self.g.below(20) {
            0..=8 => { let a = self.batch_args(c); (a, self.thin_batch()) }
            9..=14 => self.sampling(c),
            15..=17 => self.profile(c),
            _ => self.fitting(c),
        }
    }

    // ------------------------------------------------------------------ properties
    fn c01(&mut self) {
        let mut c = self.cfg();
        let k = self.g.range(1, 2);
        let mut a = self.batch_args(&mut c);
        self.config(&c);
        for i in 0..k {
            if i > 0 {
                a = self.batch_args(&mut c);
                c.offset = 200;
                self.config(&c);
            }
            self.overrides(&c, &mut a);
            let th = self.thin_batch();
            self.maybe_benign(th, &a);
        }
    }
    fn c02(&mut self) {
        let mut c = self.cfg();
        let (a, thin) = self.sampling(&mut c);
        self.config(&c);
        // what an earlier, perhaps interrupted, run left behind
        if self.g.chance(400) {
            let name = crate::walk::append_files(&crate::walk::parse_args(&a).modes[0], &c)[0].0.clone();
            let mut old = String::from("1 2 3 4 5\n0.25 -0.5 1e-3 4 5\n");
            if self.g.chance(500) { old += self.g.pick(&["0.123 -0.4", "7", "0.1 0.2 0.3 ", "-"]); }
            if self.g.chance(100) { old.clear(); }
            self.put(&name, Some(old.into_bytes()));
        }
        for _ in 0..self.g.range(1, 3) {
            match self.g.below(10) {
                0 => { self.faulted(thin, &a, Want::Crash, false, &|_| true); }
                1 => { self.faulted(thin, &a, Want::Hard, false, &|_| true); }
                2 | 3 => { self.faulted(thin, &a, Want::Benign, false, &|_| true); }
                _ => { self.clean(thin, &a); }
            }
        }
    }
    fn c03(&mut self) {
        let mut c = self.cfg();
        c.runs = c.runs.min(3);
        match self.g.below(10) {
            // every sample the same: the mean is exact
            0..=3 => {
                c.jvar = 0.0;
                if self.g.chance(650) {
                    c.mc_points = self.g.range(1, 30);
                    self.config(&c);
                    let a: Vec<String> = vec!["-p".into(), "-b".into(), "1e15".into()];
                    self.maybe_benign(COLD, &a);
                } else {
                    self.short_dyn(&mut c);
                    c.hvar = 0.0; c.drive = "none".into(); c.hs = [0.0; 3]; c.hfield = [0.0, 0.0, self.g.uniform(-0.5, 0.5)]; c.lambda = 1.0;
                    c.runs = self.g.range(1, 4);
                    self.config(&c);
                    let a: Vec<String> = vec!["-P".into(), "-b".into(), "1e15".into()];
                    self.maybe_benign(COLD, &a);
                }
            }
            // strong fields pin the spins
            4 | 5 => {
                c.hfield = [0.0, 0.0, 40.0];
                c.hs = *self.g.pick(&[[0.0, 0.0, 0.0], [0.0, 0.0, -80.0], [60.0, 0.0, -40.0], [0.0, 50.0, -40.0]]);
                c.hvar = 0.0;
                c.jvar = 0.001;
                c.hsize = *self.g.pick(&[2i64, 4, 6]);
                c.ssize = self.g.range(2, c.hsize).min(c.hsize);
                c.mc_points = self.g.range(1, 5);
                c.threads = self.g.range(2, 5);
                self.config(&c);
                let a: Vec<String> = vec!["-p".into(), "-b".into(), "1000".into()];
                let th = *self.g.pick(&[100u64, 300]);
                self.maybe_benign(th, &a);
            }
            // one sample more each time
            6 | 7 => {
                c.threads = 1;
                c.jvar = 0.0;
                if c.hsize > 8 { c.hsize = 6; c.ssize = c.ssize.min(6); }
                let base = self.plan();
                let start = self.g.range(1, 4);
                for k in start..start + 3 {
                    c.mc_points = k;
                    self.config(&c);
                    let mut p = self.plan();
                    p.entropy = base.entropy;
                    self.go(Prog::Sc, 10_000, &["-p".to_string()], p, None);
                }
            }
            8 => {
                self.short_dyn(&mut c);
                c.threads = 1;
                c.jvar = 0.0;
                let base = self.plan();
                let b = self.g.pick(&["1", "5"]).to_string();
                for k in 1..=3 {
                    c.runs = k;
                    c.offset = 0;
                    self.config(&c);
                    let mut p = self.plan();
                    p.entropy = base.entropy;
                    self.go(Prog::Sc, COLD, &["-P".to_string(), "-b".to_string(), b.clone()], p, None);
                }
            }
            _ => {
                let (a, thin) = self.profile(&mut c);
                self.config(&c);
                self.maybe_benign(thin, &a);
            }
        }
    }
    fn c04(&mut self) {
        let mut c = self.cfg();
        if self.g.chance(50) { c.runs = 0; }
        if c.hsize > 8 { c.hsize = 8; c.ssize = c.ssize.min(8); }
        let first = self.batch_args(&mut c);
        self.config(&c);
        let n = self.g.range(3, 5);
        for k in 0..n {
            let mut a = if k == 0 { first.clone() } else {
                let mut cc = c.clone();
                let a = self.batch_args(&mut cc);
                if a.first().map_or(false, |x| x == "-l") && c.ssize % 2 == 1 { vec![] } else { a }
            };
            match self.g.below(10) {
                0 => a = vec!["-e".into(), "--response".into()],
                1 if c.ssize % 2 == 0 => a = match self.g.below(3) {
                    0 => vec!["-e".into(), "-l".into()],
                    1 => vec!["-l".into(), "--response".into()],
                    _ => vec!["-l".into(), "1".into(), "-e".into(), "--response".into()],
                },
                2 => a.extend(["-m".to_string()]),
                3 if c.tau < 4.0 * c.dt && c.hsize <= 8 && c.runs > 0 => a = vec!["-P".into()],
                _ => {}
            }
            let th = if a.contains(&"-m".to_string()) { 1_000_000 } else { self.thin_batch() };
            self.overrides(&c, &mut a);
            match self.g.below(10) {
                0..=1 => { self.faulted(th, &a, Want::Crash, false, &|_| true); }
                2 => { self.faulted(th, &a, Want::Hard, false, &|_| true); }
                3 => { self.faulted(th, &a, Want::Benign, false, &|_| true); }
                _ => { self.clean(th, &a); }
            }
            if !matches!(self.last().outcome, Outcome::Ok | Outcome::Crashed | Outcome::Fail(_)) { break; }
        }
    }
    fn c05(&mut self) {
        let mut c = self.cfg();
        c.runs = c.runs.min(2);
        let pick = self.g.below(20);
        let mut th = 1_000_000;
        let a = match self.g.below(16) {
            0..=3 => { self.short_dyn(&mut c); vec!["-P".to_string()] }
            4 | 5 => vec!["-m".to_string()],
            6 => self.analysis(),
            7 => { let (a, t) = self.any_mode(&mut c); th = t; a }
            _ => self.batch_args(&mut c),
        };
        match pick {
            0 | 1 => {
                let mut t = c.full();
                match self.g.below(6) {
                    0 => { t.truncate(self.g.below(t.len() as u64) as usize); while t.last() == Some(&b'\n') || t.is_empty() { t.push(b'x'); } t.push(b'='); }
                    1 => t.extend(b"dt = \n"),
                    2 => t = b"hsize = \"many\"\n".to_vec(),
                    3 => t = b"drive = \"spiral\"\n".to_vec(),
                    4 => t = vec![0xff, 0xfe, b'\n'],
                    _ => t.extend(b"runs = 3\nruns = 4\n"),
                }
                self.put("config.toml", Some(t));
                self.clean(th, &a);
                return;
            }
            2 => {} // no configuration at all: the defaults are written; use a cheap mode
            _ => self.config(&c),
        }
        if pick == 2 {
            let a = vec!["-a".to_string()];
            let w = *self.g.pick(&[Want::Crash, Want::Hard, Want::Benign]);
            self.faulted(1, &a, w, self.g.0 & 1 == 0, &|f| f.starts_with("config"));
            self.clean(1, &a);
            return;
        }
        for _ in 0..self.g.range(1, 2) {
            match self.g.below(10) {
                0..=4 => { let pl = self.g.chance(500); self.faulted(th, &a, Want::Crash, pl, &|f| f.starts_with("config")); }
                5..=7 => { self.faulted(th, &a, Want::Hard, false, &|f| f.starts_with("config")); }
                8 => { self.faulted(th, &a, Want::Crash, true, &|_| true); }
                _ => { self.faulted(th, &a, Want::Hard, false, &|_| true); }
            }
        }
        if self.g.chance(500) { self.clean(th, &a); }
    }
    fn c06(&mut self) {
        let mut c = self.cfg();
        c.runs = c.runs.min(3);
        let (a, thin) = self.any_mode(&mut c);
        self.config(&c);
        if self.g.chance(150) {
            // averaging depends on inputs
            self.synthetic_logs(&c);
            let a = vec![self.g.pick(&["-a", "--two-point"]).to_string()];
            self.faulted(1, &a, Want::Hard, false, &|_| true);
            self.faulted(1, &a, Want::Benign, false, &|_| true);
            return;
        }
        if self.g.chance(750) { self.faulted(thin, &a, Want::Hard, false, &|f| f != "config.toml" || thin % 3 == 1); } else { self.faulted(thin, &a, Want::Benign, false, &|_| true); }
    }
    fn c07(&mut self) {
        let mut c = self.cfg();
        c.runs = c.runs.min(3);
        if self.g.chance(300) { c.tau = c.dt * *self.g.pick(&[0.3, 0.5, 0.99, 0.01]); }
        if self.g.chance(60) { c.runs = 0; }
        let (a, thin) = match self.g.below(5) {
            0 => { let x = self.profile(&mut c); if self.g.chance(400) && x.0[0] == "-P" { c.tau = c.dt * *self.g.pick(&[0.3, 0.5, 0.99]); } x }
            1 => self.sampling(&mut c),
            _ => self.any_mode(&mut c),
        };
        self.config(&c);
        match self.g.below(10) {
            0..=5 => { self.faulted(thin, &a, Want::Hard, false, &|_| true); }
            6 => { self.faulted(thin, &a, Want::Benign, false, &|_| true); }
            _ => { self.clean(thin, &a); }
        }
    }
    fn synthetic_logs(&mut self, c: &Cfg) {
        // now and then many files, or long ones
        let many = self.g.chance(150);
        let files = if many { self.g.range(8, 30) } else { self.g.range(0, 6) };
        let first = if many { *self.g.pick(&[0i64, 3, 95, 990]) } else { 0 };
        let cols = *self.g.pick(&[13i64, 8, 3]);
        let long = if !many && self.g.chance(60) { *self.g.pick(&[400i64, 2100, 5000]) } else { 0 };
        let step = *self.g.pick(&[0.5, 0.5, 0.02, 0.005, 0.001]);
        for f in first..first + files {
            let rows = self.g.range(0, 9) + if self.g.chance(700) { long } else { 0 };
            let mut s = String::new();
            if cols == 8 { s += "#t e es mx my mz mzt boundary\n"; } else { s += &row(&mut self.g, cols, -1.0); }
            // the two-point mode needs a row at time zero in every file
            let zero = *self.g.pick(&[0.0, 0.0, 3e-17, -4.4e-16, 2e-6]);
            let neg = if self.g.chance(300) { self.g.range(1, 4) } else { 0 };
            for i in 0..rows.max(1) + neg { s += &row(&mut self.g, cols, if i == neg { zero } else { (i - neg) as f64 * step }); }
            if self.g.chance(300) {
                let l = row(&mut self.g, cols, rows as f64 * step);
                s += &l[..self.g.below(l.len() as u64) as usize];
            }
            if self.g.chance(50) { s.clear(); }
            self.put(&format!("{}{}.dat", c.file, f), Some(s.into_bytes()));
        }
        fn row(g: &mut Rng, cols: i64, t: f64) -> String {
            let mut s = format!("{t}");
            for _ in 1..cols { s += &match g.below(4) { 0 => format!(" {}", g.range(-3, 3)), 1 => format!(" {:e}", g.uniform(-1.0, 1.0) * 1e-7), _ => format!(" {}", g.uniform(-2.0, 2.0)) }; }
            s + "\n"
        }
    }
    fn c08(&mut self) {
        let mut c = self.cfg();
        c.offset = *self.g.pick(&[0i64, 0, 0, 8, 98, 1234]);
        c.runs = self.g.range(1, 4);
        let mode: Vec<String> = vec![self.g.pick(&["-a", "-a", "--two-point"]).to_string()];
        if self.g.chance(600) {
            self.config(&c);
            self.synthetic_logs(&c);
        } else {
            if c.hsize > 8 { c.hsize = 8; c.ssize = c.ssize.min(8); }
            if mode[0] == "--two-point" {
                // a row at time zero, up to rounding, is in every complete log
                c.trel = if self.g.chance(500) { 0.0 } else { self.g.range(1, 12) as f64 * c.dt };
                c.strob = false;
            }
            let a: Vec<String> = if self.g.chance(250) && c.ssize % 2 == 0 { vec!["-l".into()] } else { vec![] };
            self.config(&c);
            self.clean(COLD, &a);
            if self.g.chance(500) {
                // a second batch, longer or killed
                self.faulted(COLD, &a, Want::Crash, false, &|f| f.ends_with(".dat"));
            }
        }
        for _ in 0..self.g.range(1, 2) {
            match self.g.below(10) {
                0..=4 => { self.faulted(1, &mode, Want::Benign, false, &|_| true); }
                5 => { self.faulted(1, &mode, Want::Crash, false, &|_| true); }
                6 => { self.faulted(1, &mode, Want::Hard, false, &|_| true); }
                _ => { self.clean(1, &mode); }
            }
        }
    }
    fn c09(&mut self) {
        let mut c = self.cfg();
        if c.hsize > 8 { c.hsize = 8; c.ssize = c.ssize.min(8); }
        c.runs = c.runs.min(2);
        if self.g.chance(40) {
            // in this mode the chain is the subsystem, and the configured size of the system does not matter
            c.ssize = *self.g.pick(&[4i64, 6, 8]);
            c.hsize = self.g.range(2, 3);
            self.config(&c);
            for _ in 0..2 { self.maybe_benign(1_000_000, &["-l".to_string()]); }
            return;
        }
        let (first, th0) = self.any_mode(&mut c);
        self.config(&c);
        for k in 0..self.g.range(1, 3) {
            let (mut a, th) = if k == 0 { (first.clone(), th0) } else {
                let mut cc = c.clone();
                let x = self.any_mode(&mut cc);
                if cc == c && c.ednsty > -1.0 { x } else { (vec![], 1_000_000) }
            };
            if !a.contains(&"-b".to_string()) { self.overrides(&c, &mut a); }
            match self.g.below(12) {
                0 if c.ssize % 2 == 0 && a.is_empty() && c.ednsty > -1.0 => a = vec!["-l".into(), "--response".into()],
                1 if a.is_empty() => a = vec!["-e".into(), "--response".into()],
                2 if a.is_empty() && th >= 100_000 => a = vec!["--magnus-hist".into(), "2".into(), "--response".into()],
                _ => {}
            }
            match self.g.below(10) {
                0 => { self.faulted(th, &a, Want::Crash, false, &|_| true); }
                1 => { self.faulted(th, &a, Want::Hard, false, &|_| true); }
                2 => { self.faulted(th, &a, Want::Benign, false, &|_| true); }
                _ => { self.clean(th, &a); }
            }
        }
    }
    fn c10(&mut self) {
        let mut c = self.cfg();
        if c.hsize > 8 { c.hsize = 8; c.ssize = c.ssize.min(8); }
        c.runs = c.runs.min(3);
        let (a, thin) = loop {
            let mut cc = c.clone();
            let x = match self.g.below(10) { 0..=4 => self.sampling(&mut cc), 5 | 6 => self.profile(&mut cc), 7 => (vec![self.g.pick(&["-a", "--two-point"]).to_string()], 1), _ => self.fitting(&mut cc) };
            if !x.0.iter().any(|s| s == "-n" || s == "-P") { c = cc; break x; }
        };
        if a[0] == "--two-point" { c.trel = 0.0; }
        self.config(&c);
        if self.g.chance(400) { self.clean(COLD, &[]); }
        // logs at and around the offset
        let now = self.r.snap().get("config.toml").and_then(|b| crate::cfgfile::parse(b)).map_or(c.offset, |x| x.0.offset);
        for n in [0i64, 1, 2] {
            if self.g.chance(700) { self.put(&format!("{}{}.dat", c.file, now + n), Some(b"0 1 2 3\n1 2 3 4\n".to_vec())); }
        }
        if self.g.chance(400) { self.put("log0.dat", Some(b"0 1\n0 2\n".to_vec())); }
        // what a run that was killed at once left behind
        if self.g.chance(300) && a[0] != "--two-point" { let n = self.g.range(0, 6); let left = self.g.pick(&[&b""[..], b"0 1 2 3\n", b"0 1 2"]).to_vec(); self.put(&format!("{}{}.dat", c.file, now + n), Some(left)); }
        if self.g.chance(300) { self.put("x0.dat", Some(b"0 1\n0 2\n".to_vec())); }
        let mut a = a;
        if !a.contains(&"-b".to_string()) { self.overrides(&c, &mut a); }
        match self.g.below(10) {
            0 | 1 => { self.faulted(thin, &a, Want::Crash, false, &|_| true); }
            2 | 3 => { self.faulted(thin, &a, Want::Hard, false, &|_| true); }
            _ => { self.clean(thin, &a); }
        }
    }
    fn phys(&mut self, kind: &str, idx: u64) {
        let p = self.plan();
        let a = vec![kind.to_string(), idx.to_string(), if self.thorough { "thorough" } else { "quick" }.to_string(), (self.g.u64() >> 1).to_string()];
        self.go(Prog::Phys, 1, &a, p, None);
    }
    fn c11(&mut self, n: u64) {
        if n % 3 == 0 && self.has_phys { self.phys("C11", n); return; }
        let mut c = self.cfg();
        let b = self.g.pick(&["0", "1e-300", "1e-9", "0.001", "700", "710", "800", "1e6", "1e15", "1e300"]).to_string();
        if self.g.chance(300) { c.hfield = [0.0; 3]; c.hs = [0.0; 3]; c.jvar = 0.0; c.hvar = 0.0; c.drive = "none".into(); }
        if self.g.chance(200) { c.lambda = *self.g.pick(&[0.0, 1e-12, 1e6, -1e6]); }
        if self.g.chance(200) { c.hfield = *self.g.pick(&[[0.0, 0.0, 1e8], [1e-160, 0.0, 0.0], [1e150, 0.0, 0.0]]); }
        if self.g.chance(200) { c.jvar = *self.g.pick(&[10.0, 1e5]); }
        c.ednsty = *self.g.pick(&[-0.999, -0.001, -0.5, -0.9999]);
        let (mut a, th) = match self.g.below(3) {
            0 => { let mut k = c.clone(); let x = self.sampling(&mut k); if k.ednsty == c.ednsty { c = k; x } else { (vec![], 1_000_000) } }
            1 => (vec!["-p".into()], 1_000_000),
            _ => { let a = self.batch_args(&mut c); (a, self.thin_batch()) }
        };
        // the bath noise of the Langevin mode is infinite at infinite temperature, which is reported
        let b = if b == "0" && a.contains(&"-l".to_string()) { "1e-300".to_string() } else { b };
        if self.g.chance(700) && !a.contains(&"-b".to_string()) { a.push("-b".into()); a.push(b.clone()); }
        c.beta = b.parse().unwrap();
        self.config(&c);
        self.clean(th, &a);
    }
    /// trajectories that can be predicted: all spins parallel at the start, or two-site chains whose whole
    /// state is logged
    fn dynamics(&mut self, n: u64) {
        let prop = self.sc.prop.clone();
        if (n % 2 == 0 || prop == "C16" && n % 3 != 1) && self.has_phys { self.phys(&prop, n); return; }
        let mut c = self.cfg();
        c.strob = c.strob && self.g.chance(300);
        c.file = "log".into();
        c.runs = c.runs.min(3);
        c.dt = *self.g.pick(&[0.01, 0.02, 0.05, 0.1]);
        c.t = c.dt * self.g.range(5, 60) as f64;
        c.trel = if self.g.chance(400) { c.dt * self.g.range(1, 20) as f64 } else { 0.0 };
        c.tau = *self.g.pick(&[0.5, 1.0, 3.0, 10.0, 30.0]);
        if c.strob { c.tau = c.dt * *self.g.pick(&[2.0, 3.7, 5.0]); }
        if matches!(prop.as_str(), "C20" | "C12") && self.g.chance(if prop == "C20" { 200 } else { 80 }) {
            // sampled states that can be predicted
            c.jvar = 0.0; c.hvar = 0.0; c.beta = 1e15;
            if c.hsize > 12 { c.hsize = 8; c.ssize = c.ssize.min(8); }
            c.mc_points = self.g.range(1, 5);
            c.hfield = *self.g.pick(&[[0.0; 3], [0.0, 0.0, 1.3], [0.4, -0.7, 0.4]]);
            c.hs = *self.g.pick(&[[0.0; 3], [0.0, 0.0, -0.8], [0.9, 0.2, 0.0]]);
            let a: Vec<String> = match self.g.below(9) {
                0 | 1 => vec!["-m".into()],
                2 if c.hsize >= 4 => vec!["--monte-carlo-magnus".into()],
                2..=4 => { c.t = c.dt * (self.g.range(0, 60) as f64 + 0.3); vec!["-d".into(), self.g.range(1, 6).to_string()] }
                5 | 6 => { c.tau = c.dt * *self.g.pick(&[5.0, 7.3, 20.0]); vec!["-s".into(), self.g.range(1, 6).to_string()] }
                _ => {
                    c.trel = 0.0;
                    let mut a = vec![];
                    for _ in 0..self.g.range(1, 3) { a.extend(["-n".to_string(), self.g.pick(&["0.5", "1", "3.3", "9.99", "12.5"]).to_string()]); }
                    a.extend(["--steps".to_string(), self.g.range(1, 4).to_string()]);
                    a
                }
            };
            let mut a = a;
            a.extend(["-b".to_string(), "1e15".to_string()]);
            if !a.contains(&"-n".to_string()) { self.other_period(&mut c, &mut a); }
            self.config(&c);
            self.clean(COLD, &a);
            return;
        }
        let mut a: Vec<String> = match (prop.as_str(), self.g.below(10)) {
            ("C16", _) => {
                if c.ssize % 2 == 1 { c.ssize += 1; c.hsize = c.hsize.max(c.ssize); }
                let gamma = *self.g.pick(&["0", "0.1", "1", "2", "8", "20", ""]);
                if gamma.parse::<f64>().map_or(false, |x| x > 5.0) {
                    // strong damping needs small steps
                    c.dt = 0.004;
                    c.t = c.dt * self.g.range(5, 30) as f64;
                    c.trel = 0.0;
                    c.tau = c.dt * 10.0;
                }
                match gamma { "" => vec!["-l".into()], x => vec!["-l".into(), x.to_string()] }
            }
            ("C12", 0..=2) | ("C20", 0) => vec!["--response".into()],
            ("C20", 1..=4) | ("C12", 3) => vec!["-e".into()],
            ("C20", 5) if c.ssize % 2 == 0 => vec!["-l".into(), "0.5".into()],
            _ => vec![],
        };
        if prop == "C13" { c.drive = self.g.pick(&["none", "none", "staticfield"]).to_string(); }
        if prop == "C16" && self.g.chance(600) { c.drive = "none".into(); c.hfield = [0.0; 3]; c.hs = [0.0; 3]; c.hvar = 0.0; }
        let two = prop != "C16" && self.g.chance(500) && !a.contains(&"-e".to_string());
        if two {
            c.hsize = 2; c.ssize = 2; c.jvar = 0.0; c.hvar = 0.0;
            c.tau = c.tau.max(25.0 * c.dt);
            let b = self.g.pick(&["0.1", "1", "4"]).to_string();
            if self.g.chance(500) { a.extend(["-b".to_string(), b]); }
            self.other_period(&mut c, &mut a);
            self.config(&c);
            let th = self.thin_batch();
            self.clean(th, &a);
        } else {
            c.jvar = if prop == "C13" && self.g.chance(500) { 0.1 } else { 0.0 };
            c.hvar = if prop == "C13" && self.g.chance(300) { 0.2 } else { 0.0 };
            if c.hsize < 4 { c.hsize = 4; }
            if self.g.chance(600) {
                let d = *self.g.pick(&[[0.0, 0.0, 1.3], [0.0, 0.7, 0.4], [1.0, -0.5, 0.2], [0.0, 0.0, 0.0]]);
                c.hfield = d;
                c.hs = *self.g.pick(&[[0.0, 0.0, 0.0], [0.0, 1.0, 0.5], [-1.0, 0.0, 0.3]]);
                if prop == "C16" { c.drive = self.g.pick(&["none", "xyplane", "uniaxial", "xyelliptic"]).to_string(); }
            }
            if a.contains(&"-e".to_string()) { c.beta = 1e15; }
            a.extend(["-b".to_string(), "1e15".to_string()]);
            self.other_period(&mut c, &mut a);
            self.config(&c);
            self.clean(COLD, &a);
        }
    }
    /// the period on the command line counts, not the stored one
    fn other_period(&mut self, c: &mut Cfg, a: &mut Vec<String>) {
        if self.g.chance(200) {
            a.extend(["-t".to_string(), format!("{}", c.tau)]);
            c.tau *= 1.7;
        }
    }
    fn stats(&mut self, n: u64) {
        let prop = self.sc.prop.clone();
        if (prop == "C21" || n % 4 != 3) && self.has_phys { self.phys(&prop, n); return; }
        if prop == "C21" { return; }
        let mut c = Cfg { hsize: 2, ssize: 2, jvar: 0.0, hvar: 0.0, drive: "none".into(), ..Cfg::default() };
        if prop == "C14" {
            c.lambda = *self.g.pick(&[1.0, 0.5, 2.0]);
            c.hfield = *self.g.pick(&[[0.0; 3], [0.0, 0.0, 0.8], [0.6, 0.0, -0.4], [0.0, 1.0, 0.3]]);
            c.hs = *self.g.pick(&[[0.0; 3], [0.0, 0.0, -1.5]]);
            c.mc_points = 250;
            let b = self.g.pick(&["0.3", "1", "2"]).to_string();
            if n % 8 == 7 {
                // without a drive a trajectory starts, and stays, in the canonical ensemble of all fields
                c.hfield = *self.g.pick(&[[0.0, 0.0, 2.0], [1.0, 0.0, -1.5], [0.0, 0.5, 2.5], [0.0, 0.0, 0.0]]);
                c.hs = *self.g.pick(&[[0.0; 3], [0.0; 3], [0.0, 0.0, -3.0], [2.0, 0.0, 0.0]]);
                c.runs = 24;
                c.dt = 0.1;
                c.tau = *self.g.pick(&[0.1, 0.2]);
                c.t = c.dt * 2.0;
                c.ednsty = -(self.g.range(15, 60) as f64) / 100.0;
                let kind = self.g.below(9);
                c.beta = *self.g.pick(&[0.4, 1.2, 2.88]);
                if kind > 5 && kind < 8 {
                    // the preparation of Langevin runs knows no field, but closes the chain
                    c.hfield = [0.0; 3];
                    c.hs = [0.0; 3];
                    c.runs = 200;
                    c.t = 0.0;
                }
                for k in 0..2 {
                    c.threads = *self.g.pick(&[1i64, 2, 4, 7]);
                    c.offset = c.runs * k;
                    self.config(&c);
                    let a: Vec<String> = match kind {
                        8 => vec!["-p".into(), "-b".into(), b.clone()],
                        0 => vec!["-b".into(), b.clone()],
                        1 => vec!["--response".into(), "-b".into(), b.clone()],
                        2 => vec!["-P".into(), "-b".into(), b.clone()],
                        3 => vec!["-e".into()],
                        4 => (0..24).flat_map(|_| ["-n".to_string(), "1".to_string()]).chain(["--steps".to_string(), "1".to_string()]).collect(),
                        5 => vec![],
                        _ => vec!["-l".into(), "-b".into(), b.clone()],
                    };
                    self.clean(if kind == 8 { 5000 } else { 4000 }, &a);
                }
                return;
            }
            for _ in 0..2 {
                c.threads = *self.g.pick(&[1i64, 2, 4, 7]);
                self.config(&c);
                self.clean(5000, &["-m".to_string(), "-b".to_string(), b.clone()]);
            }
        } else {
            c.t = 0.0;
            c.runs = 40;
            let b = self.g.pick(&["0", "0.2", "1", "3", "10", "100"]).to_string();
            let stored = self.g.chance(400);
            c.ednsty = -(self.g.range(3, 97) as f64) / 100.0;
            for k in 0..3 {
                c.threads = *self.g.pick(&[1i64, 2, 4]);
                c.offset = 40 * k;
                self.config(&c);
                let mut a = if stored { vec![] } else { vec!["-b".to_string(), b.clone()] };
                if self.g.chance(400) { a.insert(0, "-l".into()); }
                self.clean(COLD, &a);
            }
        }
    }
    fn c17(&mut self, n: u64) {
        let mut c = self.cfg();
        c.lambda = *self.g.pick(&[1.0, 1.0, 0.7]);
        c.jvar = 0.0;
        c.hvar = 0.0;
        c.hsize = *self.g.pick(&[4i64, 6, 8, 12, 16]);
        c.ssize = *self.g.pick(&[4i64, c.hsize, c.hsize / 2]);
        c.tau = *self.g.pick(&[4.0, 6.0, 10.0, 20.0]);
        c.beta = 1.5;
        c.hfield = [0.0; 3];
        c.hs = [0.0; 3];
        if self.g.chance(400) { c.hfield = *self.g.pick(&[[0.2, 0.0, -0.4], [0.3, 0.5, 0.0]]); }
        if self.g.chance(300) { c.hs = [0.3, -0.8, 0.2]; }
        c.ednsty = -(self.g.range(20, 70) as f64) / 100.0;
        let e = self.g.pick(&["-0.1", "-0.15", "-0.3", "-0.5", "-0.6", "-0.75", "-0.9", "-1.2"]).to_string();
        let kind = (n % 7) as usize;
        // as often, the target is what an intended temperature gives
        let e = if matches!(kind, 0 | 1 | 4 | 5) && self.g.chance(650) {
            let beta = 0.02 * (self.g.f() * (4.5f64 / 0.02).ln()).exp();
            format!("{:.3}", crate::multi::searched(['f', 'F', 'H', 'D', 'r', 'E'][kind], &c, 0.0, beta).0.min(-0.001))
        } else { e };
        if kind == 3 && self.g.chance(500) {
            let beta = 0.02 * (self.g.f() * (4.5f64 / 0.02).ln()).exp();
            c.ednsty = (crate::multi::searched('D', &c, 10.0, beta).0 * 1000.0).round() / 1000.0;
        }
        let (mut a, th): (Vec<String>, u64) = match kind {
            0 => (vec!["-f".into(), e], 1),
            1 => (vec!["-F".into(), e], 1),
            2 => (vec!["-H".into(), e], 1),
            3 => (vec!["-D".into(), "10".into()], 1),
            4 => (vec!["-r".into(), e], 10),
            5 => (vec![format!("--magnus-fit={e}")], 10),
            _ => {
                c.dt = 0.1; c.trel = 0.0; c.runs = 2; c.hsize = 4; c.ssize = 4;
                (vec!["-A".into(), self.g.pick(&["2", "5"]).to_string()], 4)
            }
        };
        if kind < 6 && self.g.chance(300) { a.extend(["-t".to_string(), "8".to_string()]); }
        let file = ["betat.dat", "betat.dat", "betat.dat", "beta.dat", "betat-rot.dat", "betat-maglab.dat", "beta.dat"][kind];
        self.config(&c);
        if self.g.chance(500) { self.put(file, Some(b"1 2 3 4 5 6 7\n".to_vec())); }
        if self.g.chance(200) { self.faulted(1000, &a, Want::Hard, false, &|_| true); }
        self.clean(th, &a);
    }
    fn c18(&mut self, n: u64) {
        if n % 4 == 0 && self.has_phys { self.phys("C18", n); return; }
        let mut c = self.cfg();
        c.file = "log".into();
        c.runs = self.g.range(2, 6);
        c.threads = self.g.range(1, 4);
        c.hsize = *self.g.pick(&[4i64, 8]);
        c.ssize = 4;
        c.t = c.dt * 3.0;
        c.strob = false;
        c.jvar = *self.g.pick(&[0.0, 0.3]);
        c.hvar = *self.g.pick(&[0.0, 0.3]);
        c.lambda = 1.0;
        c.offset = 0;
        c.ednsty = -0.5;
        c.drive = "none".into();
        let kind = self.g.below(10);
        let b = self.g.pick(&["0.5", "2"]).to_string();
        let (a, th): (Vec<String>, u64) = match kind {
            0..=2 => (vec!["-b".into(), b], COLD),
            3 => (vec!["-b".into(), b], 100_000),
            4 => (vec!["-l".into(), "-b".into(), b], COLD),
            5 => (vec!["--response".into(), "-b".into(), b], COLD),
            // cold chains: only couplings and fields tell them apart
            6 => {
                (c.jvar, c.hvar) = *self.g.pick(&[(0.3, 0.2), (0.3, 0.0), (0.0, 0.2)]);
                let mut a: Vec<String> = vec!["-b".into(), "1e15".into()];
                match self.g.below(4) { 0 => a.push("-l".into()), 1 | 2 => a.push("--response".into()), _ => {} }
                (a, COLD)
            }
            // cold chains: only the Monte-Carlo draws tell them apart
            7 => { c.jvar = 0.0; c.hvar = 0.0; c.hfield = [0.0, 0.0, 3.0]; (vec!["-b".into(), "1e15".into()], 20_000) }
            8 => { c.mc_points = self.g.range(2, 12); (vec!["-m".into(), "-b".into(), "0.5".into()], 1000) }
            _ => (vec!["-d".into(), "7".into(), "-b".into(), b], 1),
        };
        if self.g.chance(40) {
            // the spread over the sites of a mean over runs tells how many different chains there were
            c.hsize = 64; c.ssize = 64; c.runs = 8; c.jvar = 0.05; c.hvar = 0.0; c.hfield = [0.0; 3]; c.hs = [0.0; 3];
            c.dt = 0.1; c.tau = 0.1; c.trel = 0.0;
            self.config(&c);
            self.clean(COLD, &["-P".to_string(), "-b".to_string(), "1e15".to_string()]);
            return;
        }
        let tick = *self.g.pick(&[1u64, 1000]);
        for k in 0..3 {
            c.offset = k * c.runs;
            self.config(&c);
            let mut p = self.plan();
            // the clock tells the same time in every invocation
            p.tick = tick;
            if self.g.chance(500) { p.policy = "seq".into(); }
            self.go(Prog::Sc, th, &a, p, None);
        }
    }
    fn c19(&mut self) {
        let mut c = self.cfg();
        c.runs = c.runs.min(3);
        let avg = self.g.chance(150);
        let (a, thin) = if avg { (vec!["-a".to_string()], 1) } else { self.any_mode(&mut c) };
        let rename = !avg && self.g.chance(250);
        if rename { c.file = "a_longer_name_".into(); }
        self.config(&c);
        if avg { self.synthetic_logs(&c); }
        if self.g.chance(300) { self.clean(thin, &a); }
        for _ in 0..self.g.range(1, 2) {
            let w = if self.g.chance(700) { Want::Crash } else { Want::Hard };
            self.faulted(thin, &a, w, false, &|_| true);
        }
        if rename {
            // the user goes on with other settings, which take less room
            if let Some(b) = self.r.snap().get("config.toml") { if let Some((now, _)) = crate::cfgfile::parse(b) { c.offset = now.offset; } }
            c.file = "L".into();
            self.config(&c);
        }
        self.clean(thin, &a);
        if self.g.chance(300) { self.clean(thin, &a); }
    }
    fn c22(&mut self, n: u64) {
        let mut c = self.cfg();
        c.file = "log".into();
        c.jvar = 0.0; c.hvar = 0.0; c.lambda = 1.0; c.drive = "none".into(); c.hs = [0.0; 3];
        c.hfield = [0.0, 0.0, self.g.uniform(-0.5, 0.5)];
        let tri = *self.g.pick(&[1.0, 1.5, 2.0, 2.5, 3.0, 3.7, 5.0, 7.3, 10.0, 12.9]);
        c.dt = *self.g.pick(&[0.02, 0.05, 0.1, 1.0 / 3.0, 0.07]);
        c.tau = c.dt * tri;
        c.trel = if self.g.chance(300) { c.dt * self.g.range(1, 30) as f64 } else { 0.0 };
        let cold = ["-b".to_string(), "1e15".to_string()];
        let ov = self.g.chance(250);
        let (mut a, th): (Vec<String>, u64) = match n % 4 {
            0 if self.g.chance(30) => { c.tau = c.dt; (vec!["-s".into()], 1) }
            0 => (vec!["-s".into(), self.g.range(1, 25).to_string()], 1),
            1 => {
                let mut a = vec![];
                for _ in 0..self.g.range(1, 4) { a.push("-n".into()); a.push(format!("{}", self.g.pick(&[0.04, 0.21, 0.5, 1.0, 2.0, 3.3, 5.0, 9.99, 10.0, 12.5]))); }
                match self.g.below(60) {
                    0 => { c.hsize = 2; c.ssize = 2; }
                    1 => { c.hsize = 2; c.ssize = 2; a.extend(["--steps".to_string(), self.g.range(900, 6000).to_string()]) }
                    2..=9 => a.extend(["--steps".to_string(), "1".to_string()]),
                    _ => a.extend(["--steps".to_string(), self.g.range(1, 9).to_string()]),
                }
                c.trel = 0.0;
                (a, COLD)
            }
            2 => {
                c.hsize = 4; c.ssize = 4; c.runs = self.g.range(1, 2);
                c.dt = *self.g.pick(&[0.02, 0.05]);
                c.tau = c.dt * tri;
                c.hfield[2] *= 0.5;
                (vec!["-P".into()], COLD)
            }
            _ => {
                c.strob = true;
                c.t = c.tau * self.g.range(1, 30) as f64 * *self.g.pick(&[1.0, 0.93]);
                c.hsize = 4; c.ssize = 4;
                (vec![], COLD)
            }
        };
        if n % 4 != 1 {
            a.extend(cold);
            if ov {
                // the period on the command line counts, not the stored one
                a.extend(["-t".to_string(), format!("{}", c.tau)]);
                c.tau *= 1.7;
            }
        }
        self.config(&c);
        self.maybe_benign(th, &a);
    }
}
