//! A small reference model of the spin chain, written from the equations and not from the code.
use crate::cfgfile::Cfg;
pub type V = [f64; 3];
pub fn dot(a: &V, b: &V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn cross(a: &V, b: &V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: &V) -> f64 { dot(a, a).sqrt() }
pub fn add(a: &V, b: &V, k: f64) -> V { [a[0] + k * b[0], a[1] + k * b[1], a[2] + k * b[2]] }
pub fn jmul(j: &V, s: &V) -> V { [j[0] * s[0], j[1] * s[1], j[2] * s[2]] }

#[derive(Clone)]
pub struct Mini {
    pub n: usize,
    pub ss: usize,
    pub j: Vec<V>,
    pub h: Vec<V>,
    pub s: Vec<V>,
    pub drive: String,
    pub tau: f64,
    pub e: f64,
    pub hs: V,
    /// open ends with damping gamma (Langevin mode at zero temperature)
    pub open: Option<f64>,
    pub no_static: bool,
}
impl Mini {
    /// a clean chain (no disorder) with all spins along `dir`
    pub fn aligned(c: &Cfg, dir: V) -> Mini {
        let n = c.hsize as usize;
        let l = norm(&dir);
        Mini {
            n, ss: c.ssize as usize,
            j: vec![[1.0, 1.0, c.lambda]; n],
            h: (0..n).map(|i| if (i as i64) < c.ssize { add(&c.hfield, &c.hs, 1.0) } else { c.hfield }).collect(),
            s: vec![[dir[0] / l, dir[1] / l, dir[2] / l]; n],
            drive: c.drive.clone(), tau: c.tau, e: c.e, hs: c.hs, open: None, no_static: false,
        }
    }
    pub fn h_ext(&self, t: f64) -> V {
        let p = 2.0 * std::f64::consts::PI * t / self.tau;
        match self.drive.as_str() {
            "xyplane" => [p.cos(), p.sin(), 0.0],
            "uniaxial" => [p.cos(), 0.0, 0.0],
            "xyelliptic" => [p.cos(), self.e * p.sin(), 0.0],
            "staticfield" => self.hs,
            _ => [0.0; 3],
        }
    }
    pub fn b(&self, i: usize, d: &V) -> V {
        let base = if self.no_static { [0.0; 3] } else { self.h[i] };
        if i < self.ss { add(&base, d, 1.0) } else { base }
    }
    /// the field spin i precesses about
    pub fn omega(&self, s: &[V], i: usize, d: &V) -> V {
        let n = self.n;
        let (l, r) = ((i + n - 1) % n, (i + 1) % n);
        let mut o = [0.0; 3];
        let first = self.open.is_some() && i == 0;
        let last = self.open.is_some() && i == n - 1;
        if !first { o = add(&o, &jmul(&self.j[l], &s[l]), 1.0); }
        if !last { o = add(&o, &jmul(&self.j[i], &s[r]), 1.0); }
        o = add(&o, &self.b(i, d), -1.0);
        if first || last {
            let c = cross(&s[i], &o);
            o = add(&o, &c, -self.open.unwrap());
        }
        o
    }
    fn deriv(&self, s: &[V], t: f64) -> Vec<V> {
        let d = self.h_ext(t);
        (0..self.n).map(|i| cross(&s[i], &self.omega(s, i, &d))).collect()
    }
    pub fn rk4(&mut self, t: f64, dt: f64, sub: usize) {
        let h = dt / sub as f64;
        for q in 0..sub {
            let t = t + q as f64 * h;
            let mv = |s: &[V], k: &[V], f: f64| -> Vec<V> { s.iter().zip(k).map(|(a, b)| add(a, b, f)).collect() };
            let k1 = self.deriv(&self.s, t);
            let k2 = self.deriv(&mv(&self.s, &k1, h / 2.0), t + h / 2.0);
            let k3 = self.deriv(&mv(&self.s, &k2, h / 2.0), t + h / 2.0);
            let k4 = self.deriv(&mv(&self.s, &k3, h), t + h);
            for i in 0..self.n {
                for k in 0..3 {
                    self.s[i][k] += h / 6.0 * (k1[i][k] + 2.0 * k2[i][k] + 2.0 * k3[i][k] + k4[i][k]);
                }
            }
        }
    }
    fn rot(s: &V, o: &V, dt: f64) -> V {
        let w = norm(o);
        if w == 0.0 { return *s; }
        let f = [o[0] / w, o[1] / w, o[2] / w];
        let (c, sn) = ((w * dt).cos(), (w * dt).sin());
        let x = cross(s, &f);
        let p = dot(s, &f);
        let mut r = [0.0; 3];
        for k in 0..3 { r[k] = s[k] * c + f[k] * p * (1.0 - c) + x[k] * sn; }
        let l = norm(&r);
        [r[0] / l, r[1] / l, r[2] / l]
    }
    /// one step of a symmetric splitting, to estimate what "second order in dt" allows
    pub fn split(&mut self, t: f64, dt: f64, first: usize, at: f64) {
        let d = self.h_ext(t + at * dt);
        for (par, f) in [(first, 0.5), (1 - first, 1.0), (first, 0.5)] {
            let o: Vec<(usize, V)> = (0..self.n).filter(|i| i % 2 == par).map(|i| (i, self.omega(&self.s, i, &d))).collect();
            for (i, o) in o { self.s[i] = Mini::rot(&self.s[i], &o, f * dt); }
        }
    }
    pub fn e_total(&self, t: f64) -> f64 {
        let d = self.h_ext(t);
        let n = self.n;
        let mut e = 0.0;
        for i in 0..n {
            e -= dot(&self.s[i], &jmul(&self.j[i], &self.s[(i + 1) % n]));
            let mut b = self.h[i];
            if i < self.ss { b = add(&b, &d, 1.0); }
            e += dot(&self.s[i], &b);
        }
        e / n as f64
    }
    /// energy density of the subsystem proper: its inner bonds, each with the field on its left site
    pub fn e_sub(&self, t: f64) -> f64 {
        let d = self.h_ext(t);
        let mut e = 0.0;
        for i in 0..self.ss - 1 {
            e -= dot(&self.s[i], &jmul(&self.j[i], &self.s[i + 1]));
            e += dot(&self.s[i], &add(&self.h[i], &d, 1.0));
        }
        e / (self.ss - 1) as f64
    }
    pub fn m(&self) -> V {
        let mut m = [0.0; 3];
        for s in &self.s[..self.ss] { m = add(&m, s, 1.0 / self.ss as f64); }
        m
    }
    pub fn mz_tot(&self) -> f64 { self.s.iter().map(|s| s[2]).sum::<f64>() / self.n as f64 }
    pub fn row(&self, t: f64) -> Vec<f64> {
        let m = self.m();
        let (a, b) = (self.s[self.ss / 4], self.s[3 * self.ss / 4]);
        vec![t, self.e_total(t), self.e_sub(t), m[0], m[1], m[2], self.mz_tot(), a[0], a[1], a[2], b[0], b[1], b[2]]
    }
    pub fn dist(&self, o: &Mini) -> f64 {
        let mut d: f64 = 0.0;
        for i in 0..self.n { for k in 0..3 { d = d.max((self.s[i][k] - o.s[i][k]).abs()); } }
        d
    }
}
