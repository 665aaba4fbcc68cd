//! Library-level workloads: chains driven through the public interface inside the simulator, on several
//! simulated threads, checked against the reference model while they run.
//!   phys <PROP> <index> quick|thorough [seed]
//! prints `FAIL <prop> <class> <detail>` and `COUNT <what> <n>` lines.
mod chain;
mod model;
mod rng;
mod stats;
mod steps;

use chain::yield_now;
use rng::Rng;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Out {
    pub fails: Vec<(String, String)>,
    pub counts: BTreeMap<&'static str, u64>,
    pub shared: Vec<stats::Fingerprint>,
}
impl Out {
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.fails.len() < 4 { self.fails.push((class.into(), detail.replace('\n', " "))); }
    }
    pub fn count(&mut self, what: &'static str, n: u64) { *self.counts.entry(what).or_default() += n; }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let idx: u64 = a[2].parse().unwrap();
    let thorough = a.get(3).map_or(false, |t| t == "thorough");
    let seed: u64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut g = Rng::new(seed, &prop, idx);
    let threads = g.range(1, 4) as u64;
    let hs: Vec<_> = (0..threads).map(|k| {
        let (prop, sub) = (prop.clone(), g.u64());
        std::thread::spawn(move || {
            let mut g = Rng(sub);
            let mut o = Out::default();
            yield_now();
            let scale = threads;
            match prop.as_str() {
                "C11" => steps::c11(&mut g, &mut o, thorough),
                "C12" => steps::c12(&mut g, &mut o, thorough),
                "C13" => steps::c13(&mut g, &mut o, thorough),
                "C14" => stats::c14(&mut g, &mut o, scale, thorough),
                "C15" => stats::c15(&mut g, &mut o, scale, thorough, k),
                "C16" => steps::c16(&mut g, &mut o, scale, k),
                "C18" => stats::c18(&mut g, &mut o),
                "C20" => steps::c20(&mut g, &mut o, k),
                "C21" => stats::c21(&mut g, &mut o, scale, k),
                p => panic!("no workload for {p}"),
            }
            o
        })
    }).collect();
    let mut all = Out::default();
    for (k, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok(o) => {
                for (c, d) in o.fails { all.fail(&c, format!("thread {k}: {d}")); }
                for (c, n) in o.counts { all.count(c, n); }
                all.shared.extend(o.shared);
            }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                all.fail("panic", format!("thread {k}: {m}"));
            }
        }
    }
    if prop == "C18" { stats::c18_compare(&mut all); }
    all.count("threads", threads);
    for (c, n) in &all.counts { println!("COUNT {c} {n}"); }
    for (c, d) in &all.fails { println!("FAIL {prop} {c} {d}"); }
}
