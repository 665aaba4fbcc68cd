//! Workloads on the distributions of what is drawn at random.
use crate::chain::*;
use crate::model::*;
use crate::rng::Rng;
use crate::Out;
use sc::config::Config;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;
use std::f64::consts::PI;

/// chains of either kind
enum Any { Plain(SpinChain), Langevin(SpinChainLangevin) }
impl Any {
    fn new(c: &Config, langevin: bool, file: usize) -> Any {
        if langevin { Any::Langevin(SpinChainLangevin::new(c.clone(), file, 0.5)) } else { Any::Plain(SpinChain::new(c.clone(), file)) }
    }
    fn ch(&mut self) -> &mut dyn Ch { match self { Any::Plain(s) => s, Any::Langevin(s) => s } }
}

// ------------------------------------------------------------------------------------------- C14
/// E as a quadratic function of one spin: constant, linear and symmetric quadratic part
struct Quad { g: V, q: [[f64; 3]; 3] }
impl Quad {
    fn of(m: &mut Model, i: usize, e: &dyn Fn(&Model) -> f64) -> Quad {
        let keep = m.s[i];
        let mut at = |v: V| { m.s[i] = v; e(m) };
        let c = at([0.0; 3]);
        let ax = |k: usize, f: f64| { let mut v = [0.0; 3]; v[k] = f; v };
        let (p, n): (Vec<f64>, Vec<f64>) = (0..3).map(|k| (at(ax(k, 1.0)), at(ax(k, -1.0)))).unzip();
        let mut r = Quad { g: [0.0; 3], q: [[0.0; 3]; 3] };
        for k in 0..3 {
            r.g[k] = (p[k] - n[k]) / 2.0;
            r.q[k][k] = (p[k] + n[k]) / 2.0 - c;
            for l in 0..k {
                let v = [ax(k, 1.0), ax(l, 1.0)].iter().fold([0.0; 3], |a, b| add(&a, b, 1.0));
                let x = (at(v) - p[k] - p[l] + c) / 2.0;
                r.q[k][l] = x;
                r.q[l][k] = x;
            }
        }
        m.s[i] = keep;
        r
    }
    fn at(&self, v: &V) -> f64 {
        let mut e = dot(&self.g, v);
        for k in 0..3 { for l in 0..3 { e += self.q[k][l] * v[k] * v[l]; } }
        e
    }
}
const GRID: usize = 20_000;
/// points spread evenly over the sphere, along no direction in rows
fn sphere(n: usize, f: &mut dyn FnMut(&V)) {
    let golden = PI * (3.0 - 5f64.sqrt());
    for k in 0..n {
        let z = -1.0 + (2.0 * k as f64 + 1.0) / n as f64;
        let r = (1.0 - z * z).sqrt();
        let p = golden * k as f64;
        f(&[r * p.cos(), r * p.sin(), z]);
    }
}
fn far(k: f64, n: f64, p: f64) -> bool { (k - n * p).abs() > Z_MAX * (n * p * (1.0 - p)).max(0.0).sqrt() + 25.0 + 2e-4 * n }

pub fn c14(g: &mut Rng, o: &mut Out, scale: u64, thorough: bool) {
    let kind = *g.pick(&["plain", "plain", "maglab", "rot_magnus", "langevin", "mag_full", "magnus", "langevin-magnus"]);
    let modelled = matches!(kind, "plain" | "maglab" | "rot_magnus" | "langevin");
    let lang = kind.starts_with("langevin");
    let n = if matches!(kind, "rot_magnus" | "mag_full") || lang { *g.pick(&[4i64, 6, 8]) } else { *g.pick(&[2i64, 4, 6, 8]) };
    let n = if kind == "magnus" { n.max(4) } else { n };
    let dr = *g.pick(&DRIVES);
    let mut c = config(g, n, dr);
    c.trel = 0.0;
    if n == 2 { c.ssize = *g.pick(&[1, 2]); }
    let sharp = modelled && g.chance(450);
    c.beta = if !modelled { 0.0 } else if sharp { 1e9 } else { *g.pick(&[0.0, 0.2, 0.7, 1.5, 4.0]) };
    let mut any = Any::new(&c, lang, 40 + g.below(1000) as usize);
    let mut base: Vec<V> = (0..n).map(|_| unit(g)).collect();
    if g.chance(300) { base = any.ch().spins(); }
    let (j, h) = (any.ch().j(), any.ch().h());
    any.ch().set(&base);
    let mut m = model(&c, &j, &h, &base, dr);
    let energy: &dyn Fn(&Model) -> f64 = match kind {
        "plain" => &|m| m.e_plain(),
        "maglab" => &|m| m.e_maglab(),
        "rot_magnus" => &|m| m.e_rot(),
        _ => &|m| m.e_bonds(),
    };
    // near the ground state the rare, expensive moves can be counted
    let low = modelled && !sharp && c.beta > 0.5 && g.chance(500);
    if low {
        for k in 0..6 * n as usize {
            let i = k % n as usize;
            let q = Quad::of(&mut m, i, energy);
            let l = norm(&q.g);
            if l > 1e-3 { base[i] = [-q.g[0] / l, -q.g[1] / l, -q.g[2] / l]; m.s = base.clone(); }
        }
        any.ch().set(&base);
    }
    let trials = if thorough { 400_000 } else { 160_000 } / scale * if low { 4 } else { 1 };
    let about = format!("{kind} N={n} l={} beta {} lambda {} jvar {} h {:?} hs {:?}", c.ssize, c.beta, c.lambda, c.jvar, c.hfield, c.hs);
    // expected acceptance and moments of the accepted directions
    let nu = n as usize;
    let mut expect = vec![(1.0f64, [0.0; 3], [1.0 / 3.0; 3]); nu];
    let cost = [0.0, 1.0, 2.0, 3.0, 5.0, 12.0];
    let mut bands = [(0.0f64, 0.0f64); 5];
    let band = |x: f64| cost.windows(2).position(|w| x >= w[0] && x < w[1]);
    let quads: Vec<Quad> = (0..nu).map(|i| Quad::of(&mut m, i, energy)).collect();
    if modelled && c.beta > 0.0 {
        for i in 0..nu {
            let e0 = quads[i].at(&base[i]);
            let (mut a, mut f, mut s2, mut k) = (0.0, [0.0; 3], [0.0; 3], 0.0);
            sphere(GRID, &mut |v| {
                let de = quads[i].at(v) - e0;
                let w = if de <= 0.0 { 1.0 } else { (-c.beta * de).exp() };
                a += w;
                k += 1.0;
                for q in 0..3 { f[q] += w * v[q]; s2[q] += w * v[q] * v[q]; }
                if let Some(b) = band(c.beta * de) { bands[b].0 += w / GRID as f64 / n as f64 * trials as f64; }
            });
            expect[i] = (a / k, [f[0] / a, f[1] / a, f[2] / a], [s2[0] / a, s2[1] / a, s2[2] / a]);
        }
    }
    let mut acc = vec![(0.0f64, [0.0; 3], [0.0; 3]); nu];
    let spins: Vec<sc::spin::Spin> = base.iter().map(spin).collect();
    let t0 = any.ch().time();
    let mut old = base.clone();
    let walk = g.chance(300) && sharp;
    for k in 0..trials {
        if k % 8192 == 0 { yield_now(); }
        let now: &[sc::spin::Spin] = match &mut any {
            Any::Plain(s) => {
                if !walk { for i in 0..nu { s.spins[i].dir = spins[i].dir; } }
                match kind {
                    "plain" => s.metropolis_update(),
                    "maglab" => s.metropolis_update_maglab(),
                    "rot_magnus" => s.metropolis_update_rot_magnus(),
                    "mag_full" => s.metropolis_update_mag_full(),
                    _ => s.metropolis_update_magnus(),
                }
                &s.spins
            }
            Any::Langevin(s) => {
                if !walk { for i in 0..nu { s.spins[i].dir = spins[i].dir; } }
                if kind == "langevin" { s.metropolis_update() } else { s.metropolis_update_magnus() }
                &s.spins
            }
        };
        let mut moved = None;
        for i in 0..nu {
            if now[i].dir != old[i] {
                if moved.is_some() { o.fail("several-spins", format!("one update changed sites {} and {i} ({about})", moved.unwrap())); return; }
                moved = Some(i);
            }
        }
        let i = match moved { Some(i) => i, None => continue };
        let v = now[i].dir;
        if !((norm(&v) - 1.0).abs() < 1e-9) { o.fail("length", format!("site {i} set to {v:?} ({about})")); return; }
        if sharp {
            let q = if walk { m.s = old.clone(); Quad::of(&mut m, i, energy) } else { Quad { g: quads[i].g, q: quads[i].q } };
            let de = q.at(&v) - q.at(&old[i]);
            if !(de < 1e-7) {
                o.fail("accepted-uphill", format!("site {i} went from {:?} to {v:?}, which costs {de:.4e}, at zero temperature ({about})", old[i]));
                return;
            }
        }
        if !walk && modelled && !sharp && c.beta > 0.0 {
            if let Some(b) = band(c.beta * (quads[i].at(&v) - quads[i].at(&base[i]))) { bands[b].1 += 1.0; }
        }
        acc[i].0 += 1.0;
        for q in 0..3 { acc[i].1[q] += v[q]; acc[i].2[q] += v[q] * v[q]; }
        if walk { old[i] = v; }
    }
    o.count("updates", trials);
    if any.ch().h() != h || any.ch().time() != t0 { o.fail("side-effect", format!("an update changed fields or time ({about})")); return; }
    if let Any::Plain(s) = &any { if s.j_couple != j { o.fail("side-effect", format!("an update changed couplings ({about})")); return; } }
    if walk { return; }
    for (b, (want, got)) in bands.iter().enumerate() {
        // Chernoff bound on the tail of a Poisson variable, with some room for the error of the expectation
        let w = if got > want { want * 1.04 + 3.0 } else { (want * 0.96 - 3.0).max(0.0) };
        let unlikely = w - got + if *got > 0.0 && w > 0.0 { got * (got / w).ln() } else { 0.0 };
        if (got > &w) == (got > want) && unlikely > 27.0 {
            o.fail("acceptance", format!("{got} of {trials} updates accepted a cost of {}..{} temperatures instead of {want:.1} ({about})", cost[b], cost[b + 1]));
            return;
        }
    }
    for i in 0..nu {
        let (p, f, s2) = &expect[i];
        let (k, a1, a2) = &acc[i];
        let p = p / n as f64;
        if far(*k, trials as f64, p) {
            o.fail("acceptance", format!("site {i}: {k} of {trials} updates accepted instead of {:.1} ({about})", trials as f64 * p));
            return;
        }
        if *k < 200.0 { continue; }
        for q in 0..3 {
            let tol = |var: f64| Z_MAX * (var / k).sqrt() + 20.0 / k + 2e-3;
            let (d1, d2) = (a1[q] / k - f[q], a2[q] / k - s2[q]);
            if !(d1.abs() < tol((s2[q] - f[q] * f[q]).max(0.0)) && d2.abs() < tol((s2[q] * (1.0 - s2[q])).max(0.0))) {
                o.fail("accepted-directions", format!("site {i}, component {q}: mean {:.4} and mean square {:.4} of the accepted directions instead of {:.4} and {:.4} ({about})", a1[q] / k, a2[q] / k, f[q], s2[q]));
                return;
            }
        }
    }
}

// ------------------------------------------------------------------------------------------- C15
pub fn c15(g: &mut Rng, o: &mut Out, scale: u64, thorough: bool, thread: u64) {
    let langevin = g.chance(500);
    let n = *g.pick(&[8i64, 32, 64, 128]);
    let dr = *g.pick(&DRIVES);
    let mut c = config(g, n, dr);
    let b = if g.chance(300) {
        let e = -g.uniform(0.03, 0.95);
        let b = SpinChain::solve_beta(e);
        let b2 = SpinChainLangevin::solve_beta(e);
        for b in [b, b2] {
            let got = 1.0 / b - 1.0 / b.tanh();
            if !((got - e).abs() < 0.01) { o.fail("solved-temperature", format!("energy density {e} gives inverse temperature {b}, which has energy density {got}")); return; }
        }
        b
    } else { *g.pick(&[0.0, 0.05, 0.3, 1.0, 2.88, 5.0, 20.0, 100.0, 1000.0]) };
    c.beta = b;
    let chains = (if thorough { 80_000 } else { 24_000 } / scale as i64 / n).max(4);
    let (mut cos, mut az, mut rel, mut c0, mut c1) = (vec![], vec![], vec![], vec![], vec![]);
    // how far the next spin is tilted, and where to: components of the tilt in the frame of the laboratory
    let (mut tilt, mut to) = (vec![], vec![vec![]; 6]);
    let angle = |s: &V, r: &V, d: &V| -> Option<f64> {
        // azimuth of d about s, measured from the projection of r
        let e = add(r, s, -dot(r, s));
        let l = norm(&e);
        if l < 1e-6 { return None; }
        let e = [e[0] / l, e[1] / l, e[2] / l];
        let f = cross(s, &e);
        let (x, y) = (dot(d, &e), dot(d, &f));
        if x.hypot(y) < 1e-6 { return None; }
        Some(y.atan2(x) / (2.0 * PI) + 0.5)
    };
    let mut prev: Option<f64> = None;
    for _ in 0..chains {
        yield_now();
        let mut a = Any::new(&c, langevin, thread as usize);
        let s = a.ch().spins();
        if let Err(e) = a.ch().check_unit() { o.fail("initial-spin", format!("{e} at beta {b}")); return; }
        for i in 0..s.len() - 1 {
            let x = dot(&s[i], &s[i + 1]);
            cos.push(x);
            if let Some(p) = angle(&s[i], &[0.0, 0.0, 1.0], &s[i + 1]) { az.push(p); }
            if i > 0 { if let Some(p) = angle(&s[i], &s[i - 1], &s[i + 1]) { rel.push(p); } }
            let d = add(&s[i + 1], &s[i], -x);
            let l = norm(&d);
            if l > 1e-6 {
                tilt.push(x);
                for k in 0..3 { to[k].push(d[k] / l); to[k + 3].push(d[k] * d[(k + 1) % 3] / l / l); }
            }
            if let Some(p) = prev { c0.push(p); c1.push(x); }
            prev = Some(x);
        }
    }
    let about = format!("{} chains, N={n}, beta {b}", if langevin { "Langevin" } else { "ordinary" });
    o.count("bonds", cos.len() as u64);
    let mean = cos.iter().sum::<f64>() / cos.len() as f64;
    let d = ks(&mut cos, &|x| boltzmann_cdf(b, x));
    if !(d < KS_MAX) { o.fail("bond-angle", format!("cosines of {} bonds do not follow the canonical distribution: KS {d:.2}, mean {mean:.4} ({about})", cos.len())); return; }
    if b < 2000.0 {
        for (what, v) in [("azimuth", &mut az), ("azimuth relative to the previous tilt", &mut rel)] {
            let d = ks(v, &|x| x);
            if !(d < KS_MAX) { o.fail("tilt-direction", format!("{what} of {} bonds is not uniform: KS {d:.2} ({about})", v.len())); return; }
        }
    }
    for (k, t) in to.iter().enumerate() {
        let z = corr(&tilt, t);
        if b < 2000.0 && !(z.abs() < Z_MAX) {
            o.fail("tilt-direction", format!("angle and direction of {} tilts are correlated (component {k}): z = {z:.1} ({about})", t.len()));
            return;
        }
    }
    let z = corr(&c0, &c1);
    if !(z.abs() < Z_MAX) { o.fail("bonds-correlated", format!("consecutive bonds are correlated: z = {z:.1} ({about})")); }
}

// ------------------------------------------------------------------------------------------- C18
#[derive(Clone)]
pub struct Fingerprint { pub who: String, pub parts: Vec<(&'static str, Vec<f64>)> }
pub fn c18(g: &mut Rng, o: &mut Out) {
    // the same configuration in every thread, so that equal randomness would mean equal states
    let mut c = Config { hsize: 16, ssize: 8, jvar: 0.4, hvar: 0.3, beta: 0.7, log: false, file: "c18-".into(), drive: drive("none"), dt: 0.01, ..Config::default() };
    c.threads = 1;
    let langevin = g.chance(400);
    for k in 0..12u64 {
        yield_now();
        let tid = g.u64() % 1_000_000_000;
        let mut a = Any::new(&c, langevin, tid as usize);
        let flat = |v: Vec<V>| v.concat();
        let mut parts = vec![("spins", flat(a.ch().spins())), ("fields", flat(a.ch().h())), ("couplings", flat(a.ch().j()))];
        if let Any::Langevin(s) = &mut a {
            // noise: displacement of the first spin beyond what a second chain without noise does
            let mut w = vec![];
            for _ in 0..24 {
                s.set(&vec![[0.0, 0.0, 1.0]; 16]);
                s.set_h(&vec![[0.0; 3]; 16]);
                s.step();
                let v = s.spins();
                w.extend([v[0][0], v[0][1], v[15][0], v[15][1]]);
            }
            parts.push(("noise", w));
        } else if let Any::Plain(s) = &mut a {
            s.vars.beta = 0.0;
            let mut w = vec![];
            for _ in 0..48 {
                let b = s.spins();
                s.metropolis_update();
                let n = s.spins();
                for i in 0..16 { if b[i] != n[i] { w.extend(n[i]); } }
            }
            w.truncate(120);
            parts.push(("Monte-Carlo draws", w));
        }
        o.shared.push(Fingerprint { who: format!("{} chain {k} (file {tid})", if langevin { "Langevin" } else { "ordinary" }), parts });
    }
}
pub fn c18_compare(o: &mut Out) {
    let all = std::mem::take(&mut o.shared);
    o.count("chains", all.len() as u64);
    for a in 0..all.len() {
        for b in 0..a {
            for (what, x) in &all[a].parts {
                if let Some((_, y)) = all[b].parts.iter().find(|p| p.0 == *what) {
                    let n = x.len().min(y.len());
                    if n < 8 { continue; }
                    let same = x[..n].iter().zip(&y[..n]).filter(|(p, q)| p == q).count();
                    let z = corr(&x[..n], &y[..n]);
                    let lim = (n as f64).sqrt() * 0.95;
                    if same > 2 || z.abs() > lim.max(0.0) && n > 20 {
                        o.fail("shared-randomness", format!("{what} of {} and {} agree ({same} of {n} values equal, correlation {:.3})", all[a].who, all[b].who, z / (n as f64).sqrt()));
                        return;
                    }
                    o.count("pairs compared", 1);
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------- C21
pub fn c21(g: &mut Rng, o: &mut Out, scale: u64, thread: u64) {
    let langevin = g.chance(450);
    let n = *g.pick(&[4i64, 8, 32, 64]);
    let dr = *g.pick(&DRIVES);
    let mut c = config(g, n, dr);
    c.ssize = g.range(1, n) as i32;
    c.lambda = *g.pick(&[1.0, 0.0, -0.7, 2.5]);
    c.jvar = *g.pick(&[0.0, 0.001, 0.2, 1.0]);
    c.hvar = *g.pick(&[0.0, 0.01, 0.5]);
    let chains = (12_000 / scale as i64 / n).max(8);
    let about = format!("{} chain N={n} l={} lambda {} jvar {} hvar {} h {:?} hs {:?}", if langevin { "Langevin" } else { "ordinary" }, c.ssize, c.lambda, c.jvar, c.hvar, c.hfield, c.hs);
    let mut zj: Vec<Vec<f64>> = vec![vec![]; 3];
    let mut zh: Vec<Vec<f64>> = vec![vec![]; 3];
    let mut inside: Vec<f64> = vec![];
    let (mut ends_j, mut ends_h): (Vec<f64>, Vec<f64>) = (vec![], vec![]);
    for _ in 0..chains {
        yield_now();
        let mut a = Any::new(&c, langevin, thread as usize);
        // the Langevin couplings are deduced from energies; never from the configuration here
        if langevin { a.ch().vars().jvar = 1.0; }
        let (j, h) = (a.ch().j(), a.ch().h());
        if j.len() != n as usize || h.len() != n as usize { o.fail("count", format!("{} couplings, {} fields ({about})", j.len(), h.len())); return; }
        for i in 0..n as usize {
            for k in 0..3 {
                let mj = if k < 2 { 1.0 } else { c.lambda };
                let mh = c.hfield[k] + if (i as i32) < c.ssize { c.hs[k] } else { 0.0 };
                let (dj, dh) = (j[i][k] - mj, h[i][k] - mh);
                if c.jvar == 0.0 && !(dj.abs() < 1e-9) { o.fail("exact-coupling", format!("coupling {i} component {k} is {} instead of {mj} ({about})", j[i][k])); return; }
                if c.hvar == 0.0 && !(dh.abs() < 1e-9) { o.fail("exact-field", format!("field at site {i} component {k} is {} instead of {mh} ({about})", h[i][k])); return; }
                if c.jvar > 0.0 { zj[k].push(dj / c.jvar); if !(dj.abs() < 9.0 * c.jvar + 1e-9) { o.fail("coupling", format!("coupling {i} component {k} is {} ({about})", j[i][k])); return; } }
                if c.hvar > 0.0 {
                    zh[k].push(dh / c.hvar);
                    if !(dh.abs() < 9.0 * c.hvar + 1e-9) { o.fail("field", format!("field at site {i} component {k} is {} ({about})", h[i][k])); return; }
                    if (i as i32) < c.ssize { inside.push(dh / c.hvar); }
                }
                if i == n as usize - 1 || i == 0 {
                    if c.jvar > 0.0 { ends_j.push(dj / c.jvar); }
                    if c.hvar > 0.0 { ends_h.push(dh / c.hvar); }
                }
            }
        }
    }
    o.count("chains", chains as u64);
    // one test against the normal law per group, then independence
    for (what, v) in [("couplings", &zj), ("fields", &zh)] {
        if v[0].len() < 100 { continue; }
        for k in 0..3 {
            let d = ks(&mut v[k].clone(), &phi);
            let tol = if what == "couplings" && langevin && c.jvar < 0.01 { KS_MAX + 0.2 } else { KS_MAX };
            if !(d < tol) {
                let m = v[k].iter().sum::<f64>() / v[k].len() as f64;
                let s = (v[k].iter().map(|x| x * x).sum::<f64>() / v[k].len() as f64).sqrt();
                o.fail("distribution", format!("component {k} of {} {what} is not normal with the configured mean and spread: KS {d:.2}, standardised mean {m:.3}, rms {s:.3} ({about})", v[k].len()));
                return;
            }
            // the tails, which the comparison above hardly sees
            if !(what == "couplings" && langevin && c.jvar < 0.01) {
                for cut in [1.5, 2.05, 2.55, 3.05] {
                    let (m, p) = (v[k].len() as f64, 2.0 * phi(-cut));
                    let q = v[k].iter().filter(|x| x.abs() > cut).count() as f64 / m;
                    let part = |q: f64, p: f64| if q > 0.0 { q * (q / p).ln() } else { 0.0 };
                    if m * (part(q, p) + part(1.0 - q, 1.0 - p)) > 25.0 {
                        o.fail("tails", format!("component {k} of {m} {what}: a share of {q:.5} instead of {p:.5} is further than {cut} standard deviations from the mean ({about})"));
                        return;
                    }
                }
            }
            let z = corr(&v[k], &v[(k + 1) % 3]);
            let z1 = corr(&v[k][1..], &v[k][..v[k].len() - 1]);
            let nn = n as usize;
            let z2 = if v[k].len() > 2 * nn { corr(&v[k][nn..], &v[k][..v[k].len() - nn]) } else { 0.0 };
            if !(z.abs() < Z_MAX && z1.abs() < Z_MAX && z2.abs() < Z_MAX) { o.fail("dependent", format!("{what} are correlated: components z {z:.1}, neighbours z {z1:.1}, chains z {z2:.1} ({about})")); return; }
            if c.jvar > 0.0 && c.hvar > 0.0 {
                let z = corr(&zj[k], &zh[k]);
                if !(z.abs() < Z_MAX) { o.fail("dependent", format!("couplings and fields are correlated: z {z:.1} ({about})")); return; }
            }
        }
    }
    for (what, v) in [("fields on the subsystem", &mut inside), ("couplings at the ends", &mut ends_j), ("fields at the ends", &mut ends_h)] {
        if v.len() < 40 { continue; }
        let d = ks(v, &phi);
        if !(d < KS_MAX) { o.fail("distribution", format!("{what} ({}) are not normal with the configured mean and spread: KS {d:.2} ({about})", v.len())); return; }
    }
}
