//! Access to both kinds of chain through their public interface.
use crate::model::{Model, V};
use crate::rng::Rng;
use sc::config::{Config, DriveType};
use sc::spin::Spin;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;
use std::sync::OnceLock;

extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
/// a scheduling point
pub fn yield_now() {
    static F: OnceLock<usize> = OnceLock::new();
    let f = *F.get_or_init(|| unsafe { dlsym(std::ptr::null_mut(), b"dst_yield\0".as_ptr()) as usize });
    if f != 0 { unsafe { std::mem::transmute::<usize, extern "C" fn()>(f)() } }
}

pub fn drive(s: &str) -> DriveType {
    match s {
        "xyplane" => DriveType::xyplane,
        "uniaxial" => DriveType::uniaxial,
        "xyelliptic" => DriveType::xyelliptic,
        "staticfield" => DriveType::staticfield,
        _ => DriveType::none,
    }
}
pub const DRIVES: [&str; 5] = ["xyplane", "uniaxial", "xyelliptic", "staticfield", "none"];

/// a random ordinary configuration
pub fn config(g: &mut Rng, n: i64, dr: &str) -> Config {
    let v = |g: &mut Rng, p: u64, a: f64| if g.chance(p) { vec![g.uniform(-a, a), g.uniform(-a, a), g.uniform(-a, a)] } else { vec![0.0; 3] };
    Config {
        hsize: n as i32,
        ssize: g.range(2, n) as i32,
        t: 10.0,
        dt: *g.pick(&[0.001, 0.005, 0.01, 0.02, 0.05, 0.1, 0.2]),
        runs: 1,
        trel: if g.chance(300) { g.uniform(0.0, 20.0) } else { 0.0 },
        threads: 1,
        tau: *g.pick(&[0.5, 1.0, 2.0, 3.3, 10.0, 50.0]),
        lambda: *g.pick(&[1.0, 1.0, 0.0, 0.5, -1.0, 2.0]),
        hfield: v(g, 600, 1.5),
        hs: v(g, 400, 1.5),
        jvar: *g.pick(&[0.0, 0.001, 0.3, 0.8]),
        hvar: *g.pick(&[0.0, 0.1, 0.5]),
        method: 2,
        ednsty: -0.66,
        file: "lib".into(),
        strob: false,
        offset: 0,
        beta: *g.pick(&[0.1, 1.0, 2.88, 10.0]),
        mc_points: 1,
        e: *g.pick(&[0.9, 0.3, 0.0, -0.5]),
        drive: drive(dr),
        log: false,
    }
}
pub fn spin(v: &V) -> Spin { let mut s = Spin::new(); s.dir = *v; s }
fn dirs(s: &[Spin]) -> Vec<V> { s.iter().map(|x| x.dir).collect() }

pub fn model(c: &Config, j: &[V], h: &[V], s: &[V], dr: &str) -> Model {
    Model {
        n: c.hsize as usize, ss: c.ssize as usize, j: j.to_vec(), h: h.to_vec(), s: s.to_vec(), drive: dr.into(), tau: c.tau, e: c.e,
        hs: [c.hs[0], c.hs[1], c.hs[2]], open: None, no_static: false,
    }
}

pub trait Ch {
    fn spins(&self) -> Vec<V>;
    fn set(&mut self, s: &[V]);
    fn h(&self) -> Vec<V>;
    fn set_h(&mut self, h: &[V]);
    fn time(&self) -> f64;
    fn set_time(&mut self, t: f64);
    fn step(&mut self);
    fn vars(&mut self) -> &mut Config;
    fn energies(&self) -> Vec<f64>;
    fn e2(&self) -> f64;
    fn mags(&self) -> (V, V);
    fn row(&self);
    /// the couplings; for Langevin chains (at least four sites) deduced from energies
    fn j(&mut self) -> Vec<V>;
    fn check_unit(&self) -> Result<(), String> {
        for (i, s) in self.spins().iter().enumerate() {
            let l = crate::model::norm(s);
            if !((l - 1.0).abs() < 1e-9) { return Err(format!("spin {i} is {s:?}")); }
        }
        Ok(())
    }
}
impl Ch for SpinChain {
    fn spins(&self) -> Vec<V> { dirs(&self.spins) }
    fn set(&mut self, s: &[V]) { self.spins = s.iter().map(spin).collect(); }
    fn h(&self) -> Vec<V> { self.static_h.clone() }
    fn set_h(&mut self, h: &[V]) { self.static_h = h.to_vec(); }
    fn time(&self) -> f64 { self.t }
    fn set_time(&mut self, t: f64) { self.t = t; }
    fn step(&mut self) { self.update() }
    fn vars(&mut self) -> &mut Config { &mut self.vars }
    fn energies(&self) -> Vec<f64> { vec![self.total_energy(), self.total_energy2(), self.system_energy(), self.mc_total_energy(), self.mc_system_energy()] }
    fn e2(&self) -> f64 { self.total_energy2() }
    fn mags(&self) -> (V, V) { (self.m(), self.m_tot()) }
    fn row(&self) { self.log() }
    fn j(&mut self) -> Vec<V> { self.j_couple.clone() }
}
impl Ch for SpinChainLangevin {
    fn spins(&self) -> Vec<V> { dirs(&self.spins) }
    fn set(&mut self, s: &[V]) { self.spins = s.iter().map(spin).collect(); }
    fn h(&self) -> Vec<V> { self.static_h.clone() }
    fn set_h(&mut self, h: &[V]) { self.static_h = h.to_vec(); }
    fn time(&self) -> f64 { self.t }
    fn set_time(&mut self, t: f64) { self.t = t; }
    fn step(&mut self) { self.update() }
    fn vars(&mut self) -> &mut Config { &mut self.vars }
    fn energies(&self) -> Vec<f64> { vec![self.total_energy(), self.total_energy2(), self.system_energy()] }
    fn e2(&self) -> f64 { self.total_energy2() }
    fn mags(&self) -> (V, V) { (self.m(), self.m_tot()) }
    fn row(&self) { self.log() }
    fn j(&mut self) -> Vec<V> {
        let n = self.spins.len();
        if self.vars.jvar == 0.0 { return vec![[1.0, 1.0, self.vars.lambda]; n]; }
        assert!(n > 2);
        let (s, h, d) = (self.spins(), self.h(), self.vars.drive.clone());
        self.set_h(&vec![[0.0; 3]; n]);
        self.vars.drive = DriveType::none;
        let mut j = vec![[0.0; 3]; n];
        for i in 0..n {
            for k in 0..3 {
                let mut z = vec![[0.0; 3]; n];
                z[i][k] = 1.0;
                z[(i + 1) % n][k] = 1.0;
                self.set(&z);
                j[i][k] = -self.total_energy2() * n as f64;
            }
        }
        self.set(&s);
        self.set_h(&h);
        self.vars.drive = d;
        j
    }
}
