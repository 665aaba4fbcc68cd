//! One scenario = initial files + a history of simulated process executions, each with its own
//! complete plan (seed, schedule, clock, faults).  Executing a scenario is a pure function of its text.
use crate::rng::mix;
use std::collections::BTreeMap;
use std::fs;
use std::io::Write as _;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const FAULT_NAMES: [&str; 14] = [
    "crash-before", "crash-torn", "crash-after", "enospc", "eio", "eintr", "short", "emfile", "eacces", "eagain",
    "stall", "clockjump", "spurious-wakeup", "directory-shuffle",
];
pub const OP_NAMES: [&str; 16] = [
    "open", "write", "read", "fsync", "rename", "unlink", "thread", "close", "futex", "yield", "clock", "join",
    "exit", "stdio", "sleep", "wake",
];

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub kind: String,
    pub class: String,
    pub prefix: String,
    pub nth: u64,
    pub sticky: bool,
    pub arg: u64,
}
impl Fault {
    pub fn new(kind: &str, class: &str, prefix: &str, nth: u64, sticky: bool, arg: u64) -> Fault {
        Fault { kind: kind.into(), class: class.into(), prefix: prefix.into(), nth, sticky, arg }
    }
    pub fn is_crash(&self) -> bool {
        self.kind.starts_with("crash")
    }
    /// disturbances the program has to absorb
    pub fn is_benign(&self) -> bool {
        matches!(self.kind.as_str(), "eintr" | "short" | "stall" | "clockjump")
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub seed: u64,
    pub entropy: u64,
    pub policy: String,
    pub maxsteps: u64,
    pub tty: bool,
    pub tick: u64,
    pub spurious: u64,
    pub shuffledir: bool,
    pub faults: Vec<Fault>,
    pub devs: Vec<(u32, u32)>,
}
impl Plan {
    pub fn lines(&self) -> Vec<String> {
        let mut v = vec![
            format!("seed {}", self.seed),
            format!("entropy {}", self.entropy),
            format!("policy {}", self.policy),
            format!("maxsteps {}", self.maxsteps),
            format!("tty {}", self.tty as u8),
            format!("tick {}", self.tick),
            format!("spurious {}", self.spurious),
            format!("shuffledir {}", self.shuffledir as u8),
        ];
        for f in &self.faults {
            v.push(format!("fault {} {} {} {} {} {}", f.kind, f.class, f.prefix, f.nth, f.sticky as u8, f.arg));
        }
        for d in &self.devs {
            v.push(format!("dev {} {}", d.0, d.1));
        }
        v
    }
    fn set(&mut self, line: &str) {
        let w: Vec<&str> = line.split_whitespace().collect();
        let n = |i: usize| w.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        match w[0] {
            "seed" => self.seed = n(1),
            "entropy" => self.entropy = n(1),
            "policy" => self.policy = w[1..].join(" "),
            "maxsteps" => self.maxsteps = n(1),
            "tty" => self.tty = n(1) != 0,
            "tick" => self.tick = n(1),
            "spurious" => self.spurious = n(1),
            "shuffledir" => self.shuffledir = n(1) != 0,
            "fault" => self.faults.push(Fault::new(w[1], w[2], w[3], n(4), n(5) != 0, n(6))),
            "dev" => self.devs.push((n(1) as u32, n(2) as u32)),
            x => panic!("bad plan line {x}"),
        }
    }
    pub fn plain() -> Plan {
        Plan {
            seed: 1,
            entropy: 1,
            policy: "seq".into(),
            maxsteps: 400_000,
            tty: false,
            tick: 1000,
            spurious: 0,
            shuffledir: false,
            faults: vec![],
            devs: vec![],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Prog {
    Sc,
    Phys,
}

#[derive(Clone, Debug)]
pub enum Step {
    /// run a program
    Run { prog: Prog, thin: u64, args: Vec<String>, plan: Plan, powerloss: Option<u64> },
    /// the user (or a disaster) changes a file between invocations; None removes it
    Edit { name: String, content: Option<Vec<u8>> },
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub prop: String,
    pub label: String,
    pub steps: Vec<Step>,
}

fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        match c {
            b'\n' => s.push_str("\\n"),
            b'\\' => s.push_str("\\\\"),
            32..=126 => s.push(c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    s
}
fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            match b[i + 1] {
                b'n' => { v.push(b'\n'); i += 2 }
                b'\\' => { v.push(b'\\'); i += 2 }
                _ => { v.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap()); i += 4 }
            }
        } else {
            v.push(b[i]);
            i += 1
        }
    }
    v
}

impl Scenario {
    pub fn text(&self, class: &str, detail: &str) -> String {
        let mut o = String::from("# deterministic simulation replay file; run with: /verif/check --replay <this file>\n");
        o += &format!("property {}\nlabel {}\nclass {}\ndetail {}\n", self.prop, self.label, class, detail.replace('\n', " "));
        for s in &self.steps {
            match s {
                Step::Edit { name, content: Some(c) } => o += &format!("file {} {}\n", name, esc(c)),
                Step::Edit { name, content: None } => o += &format!("remove {}\n", name),
                Step::Run { prog, thin, args, plan, powerloss } => {
                    o += &format!("run {} {}", if *prog == Prog::Sc { "sc" } else { "phys" }, thin);
                    for a in args { o += &format!(" {a}"); }
                    o += "\n";
                    if let Some(p) = powerloss { o += &format!("powerloss {p}\n"); }
                    for l in plan.lines() { o += &format!("plan {l}\n"); }
                }
            }
        }
        o
    }
    pub fn parse(t: &str) -> (Scenario, String) {
        let mut sc = Scenario { prop: String::new(), label: String::new(), steps: vec![] };
        let mut class = String::new();
        for l in t.lines() {
            if l.starts_with('#') || l.is_empty() { continue; }
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => sc.prop = r.into(),
                "label" => sc.label = r.into(),
                "class" => class = r.into(),
                "detail" => {}
                "file" => {
                    let (n, c) = r.split_once(' ').unwrap_or((r, ""));
                    sc.steps.push(Step::Edit { name: n.into(), content: Some(unesc(c)) });
                }
                "remove" => sc.steps.push(Step::Edit { name: r.into(), content: None }),
                "run" => {
                    let w: Vec<&str> = r.split_whitespace().collect();
                    sc.steps.push(Step::Run {
                        prog: if w[0] == "sc" { Prog::Sc } else { Prog::Phys },
                        thin: w[1].parse().unwrap(),
                        args: w[2..].iter().map(|s| s.to_string()).collect(),
                        plan: Plan::plain(),
                        powerloss: None,
                    });
                }
                "powerloss" => if let Some(Step::Run { powerloss, .. }) = sc.steps.last_mut() { *powerloss = r.parse().ok(); },
                "plan" => if let Some(Step::Run { plan, .. }) = sc.steps.last_mut() { plan.set(r); },
                x => panic!("bad replay line: {x}"),
            }
        }
        (sc, class)
    }
}

pub type Snap = BTreeMap<String, Arc<Vec<u8>>>;

#[derive(Clone, Copy, Debug)]
pub struct Op { pub step: u32, pub tid: u16, pub file: u16, pub cls: u8, pub fault: u8, pub flags: u16, pub res: i32 }

#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub status: u32,
    pub threads: u32,
    pub steps: u64,
    pub switches: u64,
    pub clock_ns: u64,
    pub hash: u64,
    pub ndev: u32,
    pub fired: Vec<u32>,
    pub byop: Vec<u32>,
    pub files: Vec<String>,
    pub ops: Vec<Op>,
    pub devs: Vec<(u32, u32)>,
}
impl Trace {
    pub fn count(&self, class: &str, prefix: &str) -> u64 {
        if class == "thread" { return (self.threads.max(1) - 1) as u64; }
        let c = OP_NAMES.iter().position(|x| *x == class);
        self.ops.iter().filter(|o| {
            c.map_or(true, |c| o.cls as usize == c)
                && (prefix == "*" || self.files.get(o.file as usize).map_or(false, |f| f.starts_with(prefix)))
        }).count() as u64
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome { Ok, Fail(i32), Signal(i32), Crashed, Deadlock, StepLimit, Hang }

#[derive(Clone, Debug)]
pub struct Res {
    pub outcome: Outcome,
    pub trace: Trace,
    pub stdout: String,
    pub stderr: String,
    pub before: Snap,
    pub after: Snap,
}

#[derive(Clone)]
pub struct Env {
    pub sc: PathBuf,
    pub phys: PathBuf,
    pub lib: PathBuf,
    pub root: PathBuf,
    pub dog: Arc<Mutex<BTreeMap<u32, Instant>>>,
    pub runs: Arc<AtomicU64>,
    /// nothing runs beyond this moment; what is cut off by it is not judged
    pub cut: Arc<Mutex<Instant>>,
}
impl Env {
    pub fn over(&self) -> bool { Instant::now() >= *self.cut.lock().unwrap() }
}

pub struct Runner {
    pub env: Env,
    pub dir: PathBuf,
    plan: PathBuf,
    trace: PathBuf,
    out: PathBuf,
    err: PathBuf,
    pub runs: u64,
}

#[repr(C)]
struct RLimit { cur: u64, max: u64 }
extern "C" {
    fn setrlimit(res: i32, r: *const RLimit) -> i32;
    fn personality(p: u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

pub const CPU_LIMIT_S: u64 = 45;
pub const WALL_LIMIT_S: u64 = 200;

pub fn watchdog(e: Env) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let over = e.over();
        for (pid, t) in e.dog.lock().unwrap().iter() {
            if over || t.elapsed() > Duration::from_secs(WALL_LIMIT_S) {
                unsafe { kill(*pid as i32, 9) };
            }
        }
    });
}

impl Runner {
    pub fn new(env: &Env, k: usize) -> Runner {
        let base = env.root.join(format!("w{k}"));
        let dir = base.join("run");
        fs::create_dir_all(&dir).unwrap();
        Runner {
            env: env.clone(),
            dir,
            plan: base.join("plan"),
            trace: base.join("trace"),
            out: base.join("out"),
            err: base.join("err"),
            runs: 0,
        }
    }
    pub fn clear(&self) {
        for e in fs::read_dir(&self.dir).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() { let _ = fs::remove_dir_all(&p); } else { let _ = fs::remove_file(&p); }
        }
    }
    pub fn snap(&self) -> Snap {
        let mut m = Snap::new();
        for e in fs::read_dir(&self.dir).unwrap().flatten() {
            if let Ok(b) = fs::read(e.path()) {
                m.insert(e.file_name().to_string_lossy().into_owned(), Arc::new(b));
            }
        }
        m
    }
    pub fn restore(&self, s: &Snap) {
        self.clear();
        for (n, b) in s { fs::write(self.dir.join(n), &b[..]).unwrap(); }
    }
    pub fn edit(&self, name: &str, content: &Option<Vec<u8>>) {
        match content {
            Some(c) => fs::write(self.dir.join(name), c).unwrap(),
            None => { let _ = fs::remove_file(self.dir.join(name)); }
        }
    }
    /// Execute one simulated process in the current directory state.
    pub fn run(&mut self, prog: &Prog, thin: u64, args: &[String], plan: &Plan, powerloss: Option<u64>) -> Res {
        let before = self.snap();
        if self.env.over() {
            return Res { outcome: Outcome::Hang, trace: Trace::default(), stdout: String::new(), stderr: String::new(), after: before.clone(), before };
        }
        let mut pf = fs::File::create(&self.plan).unwrap();
        pf.write_all((plan.lines().join("\n") + "\n").as_bytes()).unwrap();
        drop(pf);
        let bin = if *prog == Prog::Sc { &self.env.sc } else { &self.env.phys };
        let mut c = Command::new(bin);
        c.args(args).current_dir(&self.dir).env_clear()
            .env("DST_PLAN", &self.plan).env("DST_TRACE", &self.trace).env("DST_THIN", thin.to_string())
            .env("LD_PRELOAD", &self.env.lib).env("RUST_BACKTRACE", "0").env("PATH", "/usr/bin:/bin").env("TERM", "dumb")
            .stdin(Stdio::null())
            .stdout(fs::File::create(&self.out).unwrap())
            .stderr(fs::File::create(&self.err).unwrap());
        let cpu = if *prog == Prog::Sc { CPU_LIMIT_S } else { 2 * CPU_LIMIT_S };
        unsafe {
            c.pre_exec(move || {
                setrlimit(0, &RLimit { cur: cpu, max: cpu + 5 });
                setrlimit(4, &RLimit { cur: 0, max: 0 });
                setrlimit(1, &RLimit { cur: 512 << 20, max: 512 << 20 });
                personality(0x0040000);
                Ok(())
            });
        }
        let _ = fs::remove_file(&self.trace);
        let mut ch = c.spawn().expect("spawn simulated process");
        let pid = ch.id();
        self.env.dog.lock().unwrap().insert(pid, Instant::now());
        let st = ch.wait().unwrap();
        let waited = self.env.dog.lock().unwrap().remove(&pid).unwrap().elapsed();
        if self.env.over() {
            return Res { outcome: Outcome::Hang, trace: Trace::default(), stdout: String::new(), stderr: String::new(), after: before.clone(), before };
        }
        self.runs += 1;
        self.env.runs.fetch_add(1, Ordering::Relaxed);
        let trace = self.read_trace();
        let rd = |p: &Path| String::from_utf8_lossy(&fs::read(p).unwrap_or_default()).into_owned();
        let (stdout, stderr) = (rd(&self.out), rd(&self.err));
        let outcome = match (st.code(), st.signal()) {
            (Some(95), _) | (Some(96), _) => panic!("simulator error: {stderr}"),
            (Some(137), _) if trace.status == 2 => Outcome::Crashed,
            (Some(97), _) if trace.status == 3 => Outcome::Deadlock,
            (Some(98), _) if trace.status == 4 => Outcome::StepLimit,
            (Some(0), _) => Outcome::Ok,
            (Some(c), _) => Outcome::Fail(c),
            (_, Some(s)) if s == 24 || (s == 9 && (waited.as_secs() >= WALL_LIMIT_S || trace.status == 0)) => Outcome::Hang,
            (_, Some(s)) => Outcome::Signal(s),
            _ => Outcome::Signal(0),
        };
        if let (Some(seed), Outcome::Crashed) = (powerloss, &outcome) {
            self.power_loss(&before, &trace, seed);
        }
        let after = self.snap();
        Res { outcome, trace, stdout, stderr, before, after }
    }
    fn read_trace(&self) -> Trace {
        let b = fs::read(&self.trace).unwrap_or_default();
        if b.len() < 34000 { panic!("no trace was written: is libdst.so loaded?"); }
        let u32a = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
        let u64a = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
        assert_eq!(u64a(0), 0x4453543031, "trace magic");
        let (nops, ndev, nfiles) = (u32a(56).min(60000) as usize, u32a(60), u32a(64) as usize);
        let f0 = 268;
        let o0 = f0 + 512 * 64;
        let d0 = o0 + 60000 * 16;
        let mut t = Trace {
            status: u32a(8), threads: u32a(12), steps: u64a(16), switches: u64a(24), clock_ns: u64a(32), hash: u64a(40),
            ndev,
            fired: (0..14).map(|i| u32a(72 + 4 * i)).collect(),
            byop: (0..16).map(|i| u32a(200 + 4 * i)).collect(),
            ..Default::default()
        };
        for i in 0..nfiles.min(512) {
            let s = &b[f0 + 64 * i..f0 + 64 * (i + 1)];
            t.files.push(String::from_utf8_lossy(&s[..s.iter().position(|c| *c == 0).unwrap_or(64)]).into_owned());
        }
        for i in 0..nops {
            let o = o0 + 16 * i;
            t.ops.push(Op {
                step: u32a(o), tid: u16::from_le_bytes([b[o + 4], b[o + 5]]), file: u16::from_le_bytes([b[o + 6], b[o + 7]]),
                cls: b[o + 8], fault: b[o + 9], flags: u16::from_le_bytes([b[o + 10], b[o + 11]]), res: u32a(o + 12) as i32,
            });
        }
        for i in 0..(ndev as usize).min(60000) {
            t.devs.push((u32a(d0 + 8 * i), u32a(d0 + 8 * i + 4)));
        }
        t
    }
    /// The machine lost power: data that was not synced may be missing, metadata may be old.
    /// Every file keeps its previous content, or any prefix of the new one, unless it was synced.
    fn power_loss(&self, before: &Snap, t: &Trace, seed: u64) {
        let now = self.snap();
        #[derive(Clone, Default)]
        struct F { touched: bool, trunc: bool, synced: bool, renamed_from: Option<String> }
        let mut m: BTreeMap<String, F> = BTreeMap::new();
        for o in &t.ops {
            let n = t.files[o.file as usize].clone();
            match OP_NAMES[o.cls as usize] {
                "open" if o.res >= 0 && o.flags & 1 != 0 => {
                    let f = m.entry(n).or_default();
                    f.touched = true;
                    if o.flags & 2 != 0 { f.trunc = true; f.synced = false; }
                }
                "write" if o.res > 0 => { let f = m.entry(n).or_default(); f.touched = true; f.synced = false; }
                "fsync" if o.res == 0 => { m.entry(n).or_default().synced = true; }
                "rename" if o.res == 0 => {
                    let src = t.files[o.flags as usize].clone();
                    let mut f = m.remove(&src).unwrap_or(F { synced: true, ..Default::default() });
                    f.touched = true; f.trunc = true; f.renamed_from = Some(src);
                    m.insert(n, f);
                }
                _ => {}
            }
        }
        let mut k = 0u64;
        for (n, f) in &m {
            k += 1;
            let r = mix(seed ^ mix(k));
            let Some(cur) = now.get(n) else { continue };
            let old = before.get(n);
            let p = self.dir.join(n);
            if !f.touched { continue; }
            if f.renamed_from.is_some() {
                if r & 1 == 0 { // the rename did not reach the disk
                    match old { Some(o) => fs::write(&p, &o[..]).unwrap(), None => { let _ = fs::remove_file(&p); } }
                } else if !f.synced { // it did, the data did not
                    fs::write(&p, &cur[..(mix(r) as usize) % (cur.len() + 1)]).unwrap();
                }
            } else if !f.synced {
                let keep = match old { Some(o) if !f.trunc => o.len().min(cur.len()), _ => 0 };
                if f.trunc && old.is_some() && r & 3 == 0 {
                    fs::write(&p, &old.unwrap()[..]).unwrap();
                } else {
                    fs::write(&p, &cur[..keep + (mix(r) as usize) % (cur.len() - keep + 1)]).unwrap();
                }
            }
        }
    }
    pub fn exec(&mut self, s: &Step) -> Option<Res> {
        match s {
            Step::Edit { name, content } => { self.edit(name, content); None }
            Step::Run { prog, thin, args, plan, powerloss } => Some(self.run(prog, *thin, args, plan, *powerloss)),
        }
    }
    /// Execute a whole scenario from an empty directory.
    pub fn execute(&mut self, sc: &Scenario) -> Vec<Option<Res>> {
        self.clear();
        sc.steps.iter().map(|s| self.exec(s)).collect()
    }
}
