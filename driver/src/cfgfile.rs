//! config.toml as the user sees it: an own reader and writer, independent of the program's.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub hsize: i64,
    pub ssize: i64,
    pub t: f64,
    pub dt: f64,
    pub runs: i64,
    pub trel: f64,
    pub threads: i64,
    pub tau: f64,
    pub lambda: f64,
    pub hfield: [f64; 3],
    pub hs: [f64; 3],
    pub jvar: f64,
    pub hvar: f64,
    pub method: i64,
    pub ednsty: f64,
    pub file: String,
    pub strob: bool,
    pub offset: i64,
    pub beta: f64,
    pub mc_points: i64,
    pub e: f64,
    pub drive: String,
    pub log: bool,
}
pub const KEYS: [&str; 23] = [
    "hsize", "ssize", "t", "dt", "runs", "trel", "threads", "tau", "lambda", "hfield", "hs", "jvar", "hvar", "method",
    "ednsty", "file", "strob", "offset", "beta", "mc_points", "e", "drive", "log",
];
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            hsize: 512, ssize: 8, t: 256.0, dt: 0.02, runs: 2, trel: 0.0, threads: 2, tau: 10.0, lambda: 1.0,
            hfield: [0.0; 3], hs: [0.0; 3], jvar: 0.001, hvar: 0.0, method: 2, ednsty: -0.66, file: "log".into(),
            strob: false, offset: 0, beta: 2.88, mc_points: 1000, e: 0.9, drive: "xyplane".into(), log: true,
        }
    }
}
fn fl(x: f64) -> String {
    format!("{x:?}")
}
fn arr(a: &[f64; 3]) -> String {
    format!("[{}, {}, {}]", fl(a[0]), fl(a[1]), fl(a[2]))
}
impl Cfg {
    pub fn get(&self, k: &str) -> String {
        match k {
            "hsize" => self.hsize.to_string(),
            "ssize" => self.ssize.to_string(),
            "t" => fl(self.t),
            "dt" => fl(self.dt),
            "runs" => self.runs.to_string(),
            "trel" => fl(self.trel),
            "threads" => self.threads.to_string(),
            "tau" => fl(self.tau),
            "lambda" => fl(self.lambda),
            "hfield" => arr(&self.hfield),
            "hs" => arr(&self.hs),
            "jvar" => fl(self.jvar),
            "hvar" => fl(self.hvar),
            "method" => self.method.to_string(),
            "ednsty" => fl(self.ednsty),
            "file" => format!("\"{}\"", self.file),
            "strob" => self.strob.to_string(),
            "offset" => self.offset.to_string(),
            "beta" => fl(self.beta),
            "mc_points" => self.mc_points.to_string(),
            "e" => fl(self.e),
            "drive" => format!("\"{}\"", self.drive),
            "log" => self.log.to_string(),
            _ => unreachable!(),
        }
    }
    fn set(&mut self, k: &str, v: &str) -> Option<()> {
        let f = || v.parse::<f64>().ok();
        let i = || v.parse::<i64>().ok();
        let b = || v.parse::<bool>().ok();
        let s = || v.strip_prefix(['"', '\''])?.strip_suffix(['"', '\'']).map(|x| x.to_string());
        let a = || -> Option<[f64; 3]> {
            let w: Option<Vec<f64>> = v.strip_prefix('[')?.strip_suffix(']')?.split(',').map(str::trim)
                .filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect();
            w?.try_into().ok()
        };
        match k {
            "hsize" => self.hsize = i()?,
            "ssize" => self.ssize = i()?,
            "t" => self.t = f()?,
            "dt" => self.dt = f()?,
            "runs" => self.runs = i()?,
            "trel" => self.trel = f()?,
            "threads" => self.threads = i()?,
            "tau" => self.tau = f()?,
            "lambda" => self.lambda = f()?,
            "hfield" => self.hfield = a()?,
            "hs" => self.hs = a()?,
            "jvar" => self.jvar = f()?,
            "hvar" => self.hvar = f()?,
            "method" => self.method = i()?,
            "ednsty" => self.ednsty = f()?,
            "file" => self.file = s()?,
            "strob" => self.strob = b()?,
            "offset" => self.offset = i()?,
            "beta" => self.beta = f()?,
            "mc_points" => self.mc_points = i()?,
            "e" => self.e = f()?,
            "drive" => self.drive = s()?,
            "log" => self.log = b()?,
            _ => {}
        }
        Some(())
    }
    /// The text a user might have written: the keys in `keep` only, all others default.
    pub fn text(&self, keep: &[&str]) -> Vec<u8> {
        let mut s = String::new();
        for k in keep {
            s += &format!("{} = {}\n", k, self.get(k));
        }
        s.into_bytes()
    }
    pub fn full(&self) -> Vec<u8> {
        self.text(&KEYS)
    }
}
/// Reads a configuration; None when it is not valid.  Also returns which keys were present.
pub fn parse(b: &[u8]) -> Option<(Cfg, Vec<String>)> {
    let s = std::str::from_utf8(b).ok()?;
    let mut c = Cfg::default();
    let mut seen: BTreeMap<String, ()> = BTreeMap::new();
    let mut pend = String::new();
    for l in s.lines() {
        let mut l = l.trim().to_string();
        if !l.contains('"') {
            if let Some(i) = l.find('#') { l.truncate(i); }
        } else if l.starts_with('#') {
            continue;
        }
        if !pend.is_empty() { l = format!("{pend} {}", l.trim()); pend.clear(); }
        if l.matches('[').count() > l.matches(']').count() { pend = l; continue; }
        let l = l.trim();
        if l.is_empty() { continue; }
        let (k, v) = l.split_once('=')?;
        let k = k.trim();
        if k.is_empty() || v.trim().is_empty() || seen.insert(k.to_string(), ()).is_some() { return None; }
        c.set(k, v.trim())?;
    }
    if !pend.is_empty() { return None; }
    if !["xyplane", "xyelliptic", "uniaxial", "staticfield", "none"].contains(&c.drive.as_str()) { return None; }
    Some((c, seen.into_keys().collect()))
}
/// Which settings differ, apart from the offset and beta
pub fn differing(a: &Cfg, b: &Cfg) -> Vec<String> {
    KEYS.iter().filter(|k| !["offset", "beta"].contains(k) && a.get(k) != b.get(k))
        .map(|k| format!("{k}: {} -> {}", a.get(k), b.get(k))).collect()
}
/// the program's documented relation between energy density and inverse temperature
pub fn solve_beta(e: f64) -> f64 {
    let (mut b, mut b2) = (20.0f64, 10.0f64);
    let mut n = 0;
    while (b - b2).abs() > 1e-12 && n < 100000 {
        b2 = b;
        b = 1.0 / (e + 1.0 / b.tanh());
        n += 1;
    }
    b
}
