//! Reference model, written from the equations: H = - sum_i S_i J_i S_{i+1} + sum_i B_i.S_i with
//! dS/dt = S x Omega, Omega_i = J_{i-1} S_{i-1} + J_i S_{i+1} - B_i.
use crate::rng::Rng;
pub type V = [f64; 3];
pub fn dot(a: &V, b: &V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn cross(a: &V, b: &V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
pub fn norm(a: &V) -> f64 { dot(a, a).sqrt() }
pub fn add(a: &V, b: &V, k: f64) -> V { [a[0] + k * b[0], a[1] + k * b[1], a[2] + k * b[2]] }
pub fn jm(j: &V, s: &V) -> V { [j[0] * s[0], j[1] * s[1], j[2] * s[2]] }
pub fn unit(g: &mut Rng) -> V {
    let z = 1.0 - 2.0 * g.f();
    let p = 2.0 * std::f64::consts::PI * g.f();
    let r = (1.0 - z * z).max(0.0).sqrt();
    [r * p.cos(), r * p.sin(), z]
}

#[derive(Clone, Debug)]
pub struct Model {
    pub n: usize,
    pub ss: usize,
    pub j: Vec<V>,
    pub h: Vec<V>,
    pub s: Vec<V>,
    pub drive: String,
    pub tau: f64,
    pub e: f64,
    pub hs: V,
    /// open ends with this damping
    pub open: Option<f64>,
    pub no_static: bool,
}
impl Model {
    pub fn h_ext(&self, t: f64) -> V {
        let p = 2.0 * std::f64::consts::PI * t / self.tau;
        match self.drive.as_str() {
            "xyplane" => [p.cos(), p.sin(), 0.0],
            "uniaxial" => [p.cos(), 0.0, 0.0],
            "xyelliptic" => [p.cos(), self.e * p.sin(), 0.0],
            "staticfield" => self.hs,
            _ => [0.0; 3],
        }
    }
    pub fn b(&self, i: usize, d: &V) -> V {
        let base = if self.no_static { [0.0; 3] } else { self.h[i] };
        if i < self.ss { add(&base, d, 1.0) } else { base }
    }
    pub fn omega(&self, s: &[V], i: usize, d: &V) -> V {
        let n = self.n;
        let (l, r) = ((i + n - 1) % n, (i + 1) % n);
        let first = self.open.is_some() && i == 0;
        let last = self.open.is_some() && i == n - 1;
        let mut o = [0.0; 3];
        if !first { o = add(&o, &jm(&self.j[l], &s[l]), 1.0); }
        if !last { o = add(&o, &jm(&self.j[i], &s[r]), 1.0); }
        o = add(&o, &self.b(i, d), -1.0);
        if first || last {
            let c = cross(&s[i], &o);
            o = add(&o, &c, -self.open.unwrap());
        }
        o
    }
    fn deriv(&self, s: &[V], t: f64) -> Vec<V> {
        let d = self.h_ext(t);
        (0..self.n).map(|i| cross(&s[i], &self.omega(s, i, &d))).collect()
    }
    pub fn rk4(&mut self, t0: f64, dt: f64, sub: usize) {
        let h = dt / sub as f64;
        let mv = |s: &[V], k: &[V], f: f64| -> Vec<V> { s.iter().zip(k).map(|(a, b)| add(a, b, f)).collect() };
        for q in 0..sub {
            let t = t0 + q as f64 * h;
            let k1 = self.deriv(&self.s, t);
            let k2 = self.deriv(&mv(&self.s, &k1, h / 2.0), t + h / 2.0);
            let k3 = self.deriv(&mv(&self.s, &k2, h / 2.0), t + h / 2.0);
            let k4 = self.deriv(&mv(&self.s, &k3, h), t + h);
            for i in 0..self.n {
                for k in 0..3 { self.s[i][k] += h / 6.0 * (k1[i][k] + 2.0 * k2[i][k] + 2.0 * k3[i][k] + k4[i][k]); }
            }
        }
    }
    fn rot(s: &V, o: &V, dt: f64) -> V {
        let w = norm(o);
        if w == 0.0 { return *s; }
        let f = [o[0] / w, o[1] / w, o[2] / w];
        let (c, sn) = ((w * dt).cos(), (w * dt).sin());
        let (x, p) = (cross(s, &f), dot(s, &f));
        let r = [s[0] * c + f[0] * p * (1.0 - c) + x[0] * sn, s[1] * c + f[1] * p * (1.0 - c) + x[1] * sn, s[2] * c + f[2] * p * (1.0 - c) + x[2] * sn];
        let l = norm(&r);
        [r[0] / l, r[1] / l, r[2] / l]
    }
    /// one symmetric split step, which only serves to tell what "second order in dt" allows
    pub fn split(&mut self, t: f64, dt: f64, first: usize, at: f64) {
        let d = self.h_ext(t + at * dt);
        for (par, f) in [(first, 0.5), (1 - first, 1.0), (first, 0.5)] {
            let o: Vec<(usize, V)> = (0..self.n).filter(|i| i % 2 == par).map(|i| (i, self.omega(&self.s, i, &d))).collect();
            for (i, o) in o { self.s[i] = Model::rot(&self.s[i], &o, f * dt); }
        }
    }
    pub fn dist(&self, o: &Model) -> f64 {
        let mut d: f64 = 0.0;
        for i in 0..self.n { for k in 0..3 { d = d.max((self.s[i][k] - o.s[i][k]).abs()); } }
        d
    }
    pub fn wmax(&self, t: f64) -> f64 {
        let d = self.h_ext(t);
        (0..self.n).map(|i| norm(&self.omega(&self.s, i, &d))).fold(0.0, f64::max)
    }
    pub fn bond(&self, i: usize) -> f64 { dot(&self.s[i], &jm(&self.j[i], &self.s[(i + 1) % self.n])) }
    pub fn e_total(&self, t: f64) -> f64 {
        let d = self.h_ext(t);
        (0..self.n).map(|i| {
            let f = if i < self.ss { add(&self.h[i], &d, 1.0) } else { self.h[i] };
            dot(&self.s[i], &f) - self.bond(i)
        }).sum::<f64>() / self.n as f64
    }
    /// energy of the subsystem: its inner bonds, each with the field on its left site
    pub fn e_sub(&self, t: f64) -> f64 {
        let d = self.h_ext(t);
        (0..self.ss - 1).map(|i| dot(&self.s[i], &add(&self.h[i], &d, 1.0)) - self.bond(i)).sum::<f64>() / (self.ss - 1) as f64
    }
    pub fn m(&self, n: usize) -> V {
        let mut m = [0.0; 3];
        for s in &self.s[..n] { m = add(&m, s, 1.0); }
        m
    }
    /// the energies the samplers refer to, for the whole chain
    pub fn e_plain(&self) -> f64 { (0..self.n).map(|i| dot(&self.s[i], &self.h[i]) - self.bond(i)).sum() }
    pub fn e_bonds(&self) -> f64 { -(0..self.n).map(|i| self.bond(i)).sum::<f64>() }
    pub fn e_maglab(&self) -> f64 {
        let om = 2.0 * std::f64::consts::PI / self.tau;
        self.e_bonds() - self.s.iter().map(|s| s[2]).sum::<f64>() / (2.0 * om)
    }
    pub fn e_rot(&self) -> f64 {
        let om = 2.0 * std::f64::consts::PI / self.tau;
        let n = self.n;
        let z = |a: &V, b: &V, i: &V| i[2] * (a[0] * b[0] + a[1] * b[1]);
        let mut e = 0.0;
        let mut mg = 0.0;
        for i in 0..n {
            let (l, c, r) = (&self.s[(i + n - 1) % n], &self.s[i], &self.s[(i + 1) % n]);
            let (jl, jc) = (&self.j[(i + n - 1) % n], &self.j[i]);
            let a = 0.5 * (jc[0] + jc[1]);
            e -= a * (c[0] * r[0] + c[1] * r[1]) + jc[2] * c[2] * r[2];
            if i < self.ss { e += c[0]; }
            e -= om * c[2];
            let (dl, dc) = (jl[1] - jl[0], jc[1] - jc[0]);
            mg += dc * dc * (z(c, c, r) + z(r, r, c));
            mg += dl * dc * (z(r, l, c) + z(l, r, c));
        }
        e - mg / (16.0 * om)
    }
}

// ---------------------------------------------------------------- statistics
/// sqrt(n) times the Kolmogorov-Smirnov distance
pub fn ks(x: &mut Vec<f64>, cdf: &dyn Fn(f64) -> f64) -> f64 {
    x.sort_by(|a, b| a.total_cmp(b));
    let n = x.len() as f64;
    let mut d: f64 = 0.0;
    for (i, v) in x.iter().enumerate() {
        let f = cdf(*v);
        d = d.max((f - i as f64 / n).abs()).max(((i + 1) as f64 / n - f).abs());
    }
    d * n.sqrt()
}
/// true samples exceed this with probability 1e-9 or less
pub const KS_MAX: f64 = 3.3;
pub const Z_MAX: f64 = 7.0;
pub fn boltzmann_cdf(beta: f64, x: f64) -> f64 {
    if beta.abs() < 1e-6 { return 0.5 * (x + 1.0); }
    ((beta * (x - 1.0)).exp() - (-2.0 * beta).exp()) / (1.0 - (-2.0 * beta).exp())
}
/// normal distribution function (Abramowitz-Stegun 7.1.26 is not enough; use a series / continued fraction)
pub fn phi(x: f64) -> f64 {
    let z = x.abs() / std::f64::consts::SQRT_2;
    let erf = if z < 3.0 {
        let (mut t, mut s, mut k) = (z, z, 0.0);
        while t.abs() > 1e-17 * s.abs() && k < 200.0 { k += 1.0; t *= -z * z / k; s += t / (2.0 * k + 1.0); }
        s * 2.0 / std::f64::consts::PI.sqrt()
    } else { 1.0 - (-z * z).exp() / (z * std::f64::consts::PI.sqrt()) * (1.0 - 0.5 / (z * z)) };
    if x < 0.0 { 0.5 * (1.0 - erf) } else { 0.5 * (1.0 + erf) }
}
pub fn corr(a: &[f64], b: &[f64]) -> f64 {
    let n = a.len() as f64;
    let (ma, mb) = (a.iter().sum::<f64>() / n, b.iter().sum::<f64>() / n);
    let (mut c, mut va, mut vb) = (0.0, 0.0, 0.0);
    for (x, y) in a.iter().zip(b) { c += (x - ma) * (y - mb); va += (x - ma).powi(2); vb += (y - mb).powi(2); }
    if va == 0.0 || vb == 0.0 { 0.0 } else { c / (va * vb).sqrt() * n.sqrt() }
}
