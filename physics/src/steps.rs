//! Workloads on time evolution and observables.
use crate::chain::*;
use crate::model::*;
use crate::rng::Rng;
use crate::Out;
use sc::config::Config;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;

fn random_spins(g: &mut Rng, n: usize) -> Vec<V> { (0..n).map(|_| unit(g)).collect() }
fn size(g: &mut Rng) -> i64 { *g.pick(&[2i64, 4, 6, 8, 8, 12, 16, 32, 64]) }

// ------------------------------------------------------------------------------------------- C11
pub fn c11(g: &mut Rng, o: &mut Out, thorough: bool) {
    for _ in 0..if thorough { 12 } else { 4 } {
        let dr = *g.pick(&DRIVES);
        let n = size(g);
        let mut c = config(g, n, dr);
        c.ssize = g.range(2.min(n), n) as i32;
        let langevin = g.chance(350);
        c.beta = *g.pick(&[0.0, 1e-300, 1e-9, 1e-6, 0.001, 1.0, 300.0, 360.0, 400.0, 709.0, 711.0, 800.0, 1e6, 1e15, 1e300]);
        if langevin && c.beta < 1e-6 { c.beta = 1e-6; }
        c.dt = *g.pick(&[1e-9, 1e-4, 0.02, 0.5, 7.0, 1e3]);
        c.tau = *g.pick(&[1e-3, 0.1, 10.0, 1e9]);
        if g.chance(300) { c.lambda = *g.pick(&[0.0, 1e-12, 1e6, -1e6]); }
        if g.chance(300) { c.hfield = vec![0.0, 0.0, *g.pick(&[1e8, -1e8, 1e-160, 1e-300])]; }
        if g.chance(200) { c.jvar = *g.pick(&[10.0, 1e5]); }
        if g.chance(300) { c.jvar = 0.0; c.hvar = 0.0; c.hfield = vec![0.0; 3]; c.hs = vec![0.0; 3]; }
        o.count("configurations", 1);
        yield_now();
        if langevin {
            let gamma = *g.pick(&[0.0, 1e-6, 0.1, 1.0, 10.0]);
            let f = g.below(1000) as usize;
            let ch = SpinChainLangevin::new(c.clone(), f, gamma);
            ops(g, o, ch, &c, &mut |g, s: &mut SpinChainLangevin| match g.below(3) {
                0 => { s.update(); "update" }
                1 => { s.metropolis_update(); "metropolis" }
                _ => { s.metropolis_update_magnus(); "magnus" }
            });
        } else {
            let ch = SpinChain::new(c.clone(), 0);
            ops(g, o, ch, &c, &mut |g, s: &mut SpinChain| match g.below(7) {
                0 => { s.update(); "update" }
                1 => { s.update_no_field(); "update_no_field" }
                2 => { s.metropolis_update(); "metropolis" }
                3 => { s.metropolis_update_maglab(); "maglab" }
                4 if s.spins.len() >= 4 => { s.metropolis_update_rot_magnus(); "rot_magnus" }
                5 if s.spins.len() >= 4 => { s.metropolis_update_mag_full(); "mag_full" }
                6 if s.spins.len() >= 4 => { s.metropolis_update_magnus(); "magnus" }
                _ => { s.update(); "update" }
            });
        }
    }
}
fn ops<C: Ch>(g: &mut Rng, o: &mut Out, mut s: C, c: &Config, op: &mut dyn FnMut(&mut Rng, &mut C) -> &'static str) {
    let say = |c: &Config| format!("N {} l {} beta {} dt {} tau {} lambda {} jvar {} hvar {} h {:?} hs {:?}", c.hsize, c.ssize, c.beta, c.dt, c.tau, c.lambda, c.jvar, c.hvar, c.hfield, c.hs);
    if let Err(e) = s.check_unit() { o.fail("initial-spin", format!("{e} ({})", say(c))); return; }
    let mut hist: Vec<&'static str> = vec![];
    for _ in 0..60 {
        if g.chance(150) {
            // states that make local fields vanish, align or point to the poles
            let n = s.spins().len();
            let v = match g.below(4) {
                0 => vec![[0.0, 0.0, 1.0]; n],
                1 => (0..n).map(|i| if i % 4 < 2 { [0.0, 0.0, -1.0] } else { [0.0, 0.0, 1.0] }).collect(),
                2 => (0..n).map(|i| if i % 4 < 2 { [1.0, 0.0, 0.0] } else { [-1.0, 0.0, 0.0] }).collect(),
                _ => random_spins(g, n),
            };
            s.set(&v);
            hist.push("set");
        }
        for _ in 0..g.range(1, 6) {
            yield_now();
            hist.push(op(g, &mut s));
            o.count("operations", 1);
            if let Err(e) = s.check_unit() {
                o.fail("spin", format!("{e} after {:?} ({})", &hist[hist.len().saturating_sub(4)..], say(c)));
                return;
            }
        }
        let (m, mt) = s.mags();
        let e = s.energies();
        if !m.iter().chain(&mt).chain(&e).all(|x| x.is_finite()) {
            o.fail("observable", format!("magnetisation {m:?} {mt:?} energies {e:?} ({})", say(c)));
            return;
        }
    }
}

// ------------------------------------------------------------------------------------------- C12
pub fn c12(g: &mut Rng, o: &mut Out, thorough: bool) {
    for _ in 0..if thorough { 12 } else { 4 } {
        let dr = *g.pick(&DRIVES);
        let n = size(g);
        let mut c = config(g, n, dr);
        if n > 2 && g.chance(200) { c.ssize = 1; }
        let mut s = SpinChain::new(c.clone(), 0);
        if g.chance(600) { let v = random_spins(g, n as usize); s.set(&v); }
        if (s.time() + c.trel).abs() > 1e-9 { o.fail("start-time", format!("starts at {} with trel {}", s.time(), c.trel)); }
        if g.chance(500) { s.set_time(g.uniform(-100.0, 1000.0)); }
        let no_field = g.chance(300);
        let (j, h) = (s.j(), s.h());
        let multi = g.chance(400);
        let steps = if multi { (*g.pick(&[2.0, 5.0]) / c.dt).min(400.0) as usize } else { 12 };
        let mut m = model(&c, &j, &h, &s.spins(), dr);
        m.no_static = no_field;
        let (mut a, mut b) = (m.clone(), m.clone());
        let mut lim: f64 = 1e-11;
        for k in 0..steps {
            let t = s.time();
            yield_now();
            if no_field { s.update_no_field() } else { s.update() }
            o.count("steps", 1);
            if (s.time() - t - c.dt).abs() > 1e-12 * (1.0 + t.abs()) { o.fail("time", format!("time went from {t} to {} with dt {}", s.time(), c.dt)); return; }
            let w = m.wmax(t) + 1.0;
            m.rk4(t, c.dt, 4);
            a.split(t, c.dt, 0, 0.5);
            b.split(t, c.dt, 1, 0.5);
            let e = a.dist(&m).max(b.dist(&m));
            if !multi { lim = 1e-11; }
            lim = (lim + (0.2 * w * c.dt).powi(3)).max(6.0 * e);
            if lim > 0.2 { break; }
            let got = s.spins();
            let mut d: f64 = 0.0;
            let mut at = 0;
            for i in 0..n as usize { for q in 0..3 { let x = (got[i][q] - m.s[i][q]).abs(); if !(x <= d) { d = x; at = i; } } }
            if !(d <= lim) {
                o.fail(if no_field { "motion-no-field" } else { "motion" },
                    format!("site {at} of N={n} l={} drive {dr} dt {} tau {} is {:?} after step {} from t={t}; equations of motion give {:?} (allowed {lim:.3e})", c.ssize, c.dt, c.tau, got[at], k + 1, m.s[at]));
                return;
            }
            if s.h() != h || s.j() != j { o.fail("disorder", format!("couplings or fields changed in step {}", k + 1)); return; }
            if !multi { m.s = got.clone(); a.s = got.clone(); b.s = got; }
        }
        o.count("trajectories", 1);
    }
}

// ------------------------------------------------------------------------------------------- C13
pub fn c13(g: &mut Rng, o: &mut Out, thorough: bool) {
    for _ in 0..if thorough { 10 } else { 3 } {
        let dr = *g.pick(&["none", "none", "staticfield"]);
        let n = size(g).min(32);
        let mut c = config(g, n, dr);
        let axis = if g.chance(400) { Some(g.below(3) as usize) } else { None };
        if axis.is_some() { c.jvar = 0.0; c.dt = c.dt.min(0.05); c.drive = drive("none"); }
        if axis.map_or(false, |k| k < 2) { c.lambda = 1.0; }
        let dr = if axis.is_some() { "none" } else { dr };
        let mut s = SpinChain::new(c.clone(), 0);
        if g.chance(600) { let v = random_spins(g, n as usize); s.set(&v); }
        if let Some(k) = axis {
            // only fields along the axis
            let h: Vec<V> = (0..n).map(|_| { let mut x = [0.0; 3]; x[k] = g.uniform(-1.0, 1.0); x }).collect();
            s.set_h(&h);
        }
        let no_field = axis.is_none() && g.chance(250);
        if g.chance(300) { s.set_time(g.uniform(-50.0, 500.0)); }
        let (j, h) = (s.j(), s.h());
        let mut m = model(&c, &j, &h, &s.spins(), dr);
        if no_field { m.h = vec![[0.0; 3]; n as usize]; }
        let e0 = m.e_total(s.time());
        let m0 = m.m(n as usize);
        let l0 = s.e2();
        let steps = if axis.is_some() { (15.0 / c.dt) as usize } else { g.range(200, 2000) as usize };
        let scale = 1.0 + c.hfield.iter().chain(&c.hs).map(|x| x.abs()).sum::<f64>() + 3.0 * (c.hvar + c.jvar);
        for k in 0..steps {
            if k % 64 == 0 { yield_now(); }
            if no_field { s.update_no_field() } else { s.update() }
            if k % 16 != 15 && k + 1 != steps { continue; }
            m.s = s.spins();
            let e = m.e_total(s.time());
            if !((e - e0).abs() < 1e-10 * scale) {
                o.fail("energy-drift", format!("energy density {e0} became {e} after {} steps (N={n} l={} dt {} drive {dr}{})", k + 1, c.ssize, c.dt, if no_field { ", field off" } else { "" }));
                return;
            }
            if !no_field && !((s.e2() - l0).abs() < 1e-10 * scale) {
                o.fail("reported-energy-drift", format!("reported energy density {l0} became {} after {} steps (N={n} l={} dt {} drive {dr})", s.e2(), k + 1, c.ssize, c.dt));
                return;
            }
            if let Some(q) = axis {
                let d = (m.m(n as usize)[q] - m0[q]).abs();
                if !(d < 2.0 * n as f64 * c.dt * c.dt + 1e-9) {
                    o.fail("magnetisation-drift", format!("magnetisation along axis {q} moved by {d} in {} steps (N={n} dt {} lambda {})", k + 1, c.dt, c.lambda));
                    return;
                }
            }
        }
        o.count("steps", steps as u64);
        o.count("trajectories", 1);
    }
}

// ------------------------------------------------------------------------------------------- C16
pub fn c16(g: &mut Rng, o: &mut Out, scale: u64, thread: u64) {
    match g.below(5) {
        0 => deterministic(g, o, thread, true),
        1 => deterministic(g, o, thread, false),
        2 => decay(g, o, thread),
        3 => noise(g, o, scale, thread),
        _ => equilibrium(g, o, scale, thread),
    }
}
/// without damping the isolated open chain, without noise the damped one
fn deterministic(g: &mut Rng, o: &mut Out, thread: u64, free: bool) {
    for _ in 0..4 {
        let dr = *g.pick(&DRIVES);
        let n = *g.pick(&[4i64, 6, 8, 16]);
        let mut c = config(g, n, dr);
        let gamma = if free { 0.0 } else { *g.pick(&[0.05, 0.3, 1.0, 3.0]) };
        c.beta = if free { *g.pick(&[0.01, 1.0, 100.0]) } else { 1e300 };
        c.dt = c.dt.min(0.05);
        let mut s = SpinChainLangevin::new(c.clone(), thread as usize, gamma);
        if (s.time() + c.trel).abs() > 1e-9 { o.fail("start-time", format!("starts at {} with trel {}", s.time(), c.trel)); }
        if g.chance(500) { s.set_time(g.uniform(-100.0, 1000.0)); }
        let j = s.j();
        let h = s.h();
        for _ in 0..40 {
            let v = random_spins(g, n as usize);
            s.set(&v);
            let t = s.time();
            yield_now();
            s.step();
            o.count("steps", 1);
            if (s.time() - t - c.dt).abs() > 1e-12 * (1.0 + t.abs()) { o.fail("time", format!("time went from {t} to {} with dt {}", s.time(), c.dt)); return; }
            let mut m = model(&c, &j, &h, &v, dr);
            m.open = Some(gamma);
            let w = (m.wmax(t) + 1.0) * (1.0 + gamma);
            let (mut a, mut b, mut q) = (m.clone(), m.clone(), m.clone());
            m.rk4(t, c.dt, 4);
            a.split(t, c.dt, 0, 1.0);
            b.split(t, c.dt, 1, 1.0);
            q.split(t, c.dt, 0, 0.0);
            let lim = 4.0 * a.dist(&m).max(b.dist(&m)).max(q.dist(&m)) + (0.25 * w * c.dt).powi(3) + 0.05 * gamma * (w * c.dt).powi(2) + 1e-11;
            let got = s.spins();
            for i in 0..n as usize {
                let d = (0..3).map(|k| (got[i][k] - m.s[i][k]).abs()).fold(0.0, f64::max);
                if !(d <= lim) {
                    o.fail(if free { "free-motion" } else { "damped-motion" },
                        format!("site {i} of N={n} l={} drive {dr} gamma {gamma} dt {} tau {} goes from {:?} to {:?} in the step from t={t}; the equations of motion give {:?} (allowed {lim:.3e})", c.ssize, c.dt, c.tau, v[i], got[i], m.s[i]));
                    return;
                }
            }
        }
    }
}
/// the energy of the open chain is conserved without damping, and does not grow at zero temperature
fn decay(g: &mut Rng, o: &mut Out, thread: u64) {
    for _ in 0..3 {
        let n = *g.pick(&[2i64, 4, 6, 8, 16]);
        let dr = *g.pick(&["none", "none", "staticfield"]);
        let mut c = config(g, n, dr);
        if n == 2 { c.jvar = 0.0; }
        c.dt = c.dt.min(0.05);
        let gamma = if g.chance(400) { 0.0 } else { *g.pick(&[0.1, 0.5, 1.0]) };
        c.beta = if gamma == 0.0 { *g.pick(&[0.01, 1.0, 1e300]) } else { 1e300 };
        let mut s = SpinChainLangevin::new(c.clone(), thread as usize, gamma);
        if g.chance(700) { let v = random_spins(g, n as usize); s.set(&v); }
        let j = s.j();
        let mut m = model(&c, &j, &s.h(), &s.spins(), dr);
        let open = |m: &Model, t: f64| m.e_total(t) * n as f64 + m.bond(n as usize - 1);
        let mut e0 = open(&m, s.time());
        let first = e0;
        for k in 0..600 {
            if k % 64 == 0 { yield_now(); }
            s.step();
            m.s = s.spins();
            let e = open(&m, s.time());
            if gamma == 0.0 && !((e - first).abs() < 1e-9 * (1.0 + first.abs())) {
                o.fail("free-energy", format!("energy of the isolated open chain went from {first} to {e} in {} steps (N={n} l={} dt {} drive {dr})", k + 1, c.ssize, c.dt));
                return;
            }
            if gamma > 0.0 && !(e <= e0 + 1e-9) {
                o.fail("energy-grows", format!("energy grew from {e0} to {e} in step {} at zero temperature (N={n} l={} gamma {gamma} dt {} drive {dr})", k + 1, c.ssize, c.dt));
                return;
            }
            e0 = e;
        }
        o.count("steps", 600);
    }
}
/// size and isotropy of the random field at the ends
fn noise(g: &mut Rng, o: &mut Out, scale: u64, thread: u64) {
    let n = *g.pick(&[4usize, 6]);
    let mut c = config(g, n as i64, "none");
    c.dt = *g.pick(&[0.0005, 0.001, 0.002]);
    c.jvar = 0.0;
    c.beta = *g.pick(&[0.2, 1.0, 5.0]);
    let gamma = *g.pick(&[0.1, 0.5, 1.0]);
    let (mut gamma, mut slack) = (gamma, 0.0);
    // a parallel chain does not move by itself: the noise of a long step or of strong damping can be seen alone
    let still = g.chance(500);
    if still {
        c.dt = *g.pick(&[0.01, 0.03, 0.1, 0.3]);
        gamma = *g.pick(&[0.3, 1.0, 3.0, 8.0]);
        if gamma * c.dt > 0.1 { gamma = 0.1 / c.dt; }
        c.beta = 2.0 * gamma * c.dt / 4e-4;
        c.lambda = 1.0;
        c.hvar = 0.0;
        c.hfield = vec![0.0; 3];
        c.hs = vec![0.0; 3];
        slack = 2.0 * gamma * c.dt + c.dt * c.dt;
    }
    let want = 2.0 * gamma * c.dt / c.beta;
    let mut s = SpinChainLangevin::new(c.clone(), thread as usize, gamma);
    let m = model(&c, &s.j(), &s.h(), &s.spins(), "none");
    let reps = 40_000 / scale as usize;
    // displacements transverse to the start direction, for all three directions of start
    for axis in 0..3usize {
        let (p, q) = ((axis + 1) % 3, (axis + 2) % 3);
        let mut base = random_spins(g, n);
        base[0] = [0.0; 3];
        base[0][axis] = 1.0;
        base[n - 1] = base[0];
        if still { base = vec![base[0]; n]; }
        let mut det = m.clone();
        det.s = base.clone();
        det.open = Some(gamma);
        det.rk4(0.0, c.dt, 1);
        let mut x: Vec<Vec<f64>> = vec![vec![]; 4];
        let mut inner: f64 = 0.0;
        for k in 0..reps {
            if k % 1024 == 0 { yield_now(); }
            s.set(&base);
            s.step();
            let v = s.spins();
            x[0].push(v[0][p] - det.s[0][p]);
            x[1].push(v[0][q] - det.s[0][q]);
            x[2].push(v[n - 1][p] - det.s[n - 1][p]);
            x[3].push(v[n - 1][q] - det.s[n - 1][q]);
            for i in 1..n - 1 { for a in 0..3 { inner = inner.max((v[i][a] - det.s[i][a]).abs()); } }
        }
        o.count("noise samples", reps as u64);
        let sd = want.sqrt();
        let r = (reps as f64).sqrt();
        for (k, y) in x.iter().enumerate() {
            let end = if k < 2 { "first" } else { "last" };
            let var = y.iter().map(|v| v * v).sum::<f64>() / reps as f64;
            let mean = y.iter().sum::<f64>() / reps as f64;
            let tol = slack + 0.02 + 3.0 * want + Z_MAX * (2.0f64).sqrt() / r;
            if !((var / want - 1.0).abs() < tol) {
                o.fail("noise-strength", format!("{end} site, start along axis {axis}: variance {var:.4e} per step instead of 2 gamma dt/beta = {want:.4e} (gamma {gamma} beta {} dt {})", c.beta, c.dt));
                return;
            }
            if !(mean.abs() < Z_MAX * sd / r + 2.0 * want) {
                o.fail("noise-bias", format!("{end} site, start along axis {axis}: mean displacement {mean:.4e} besides the deterministic one, expected size {sd:.4e} per step"));
                return;
            }
        }
        for a in 0..4 {
            for b in 0..a {
                let z = corr(&x[a], &x[b]);
                if !(z.abs() < Z_MAX + 0.1 * r * want.sqrt()) { o.fail("noise-correlated", format!("noise components {a} and {b} (first/last site, transverse to axis {axis}) are correlated: z = {z:.1}")); return; }
            }
            let (y0, y1): (Vec<f64>, Vec<f64>) = (x[a][..reps - 1].to_vec(), x[a][1..].to_vec());
            let z = corr(&y0, &y1);
            if !(z.abs() < Z_MAX) { o.fail("noise-repeats", format!("noise of successive steps is correlated: z = {z:.1}")); return; }
        }
        // interior sites see the noise only through their neighbours, an order of dt later
        let bound = 8.0 * c.dt * 6.0 * sd * (1.0 + c.lambda.abs()) * if still { 1.0 + gamma } else { 1.0 } + 1e-9;
        if !(inner < bound) { o.fail("interior-noise", format!("an interior site deviates by {inner:.3e} from deterministic motion in one step (allowed {bound:.3e})")); return; }
    }
}
/// two spins in equilibrium with their baths
fn equilibrium(g: &mut Rng, o: &mut Out, scale: u64, thread: u64) {
    let mut c = config(g, 2, "none");
    c.jvar = 0.0;
    c.hvar = 0.0;
    c.lambda = 1.0;
    c.ssize = 2;
    c.hs = vec![0.0; 3];
    // either two coupled spins, or two spins in a field (with no coupling possible to switch off, keep the coupling)
    c.hfield = vec![0.0; 3];
    c.dt = 0.02;
    c.beta = *g.pick(&[0.5, 1.0, 2.0, 4.0]);
    let gamma = *g.pick(&[0.5, 1.0]);
    let mut s = SpinChainLangevin::new(c.clone(), thread as usize, gamma);
    let steps = 160_000 / scale;
    let (mut sum, mut k) = (0.0, 0u64);
    for i in 0..steps {
        if i % 4096 == 0 { yield_now(); }
        s.step();
        if i >= 500 { let v = s.spins(); sum += dot(&v[0], &v[1]); k += 1; }
    }
    o.count("steps", steps);
    let got = sum / k as f64;
    let want = 1.0 / c.beta.tanh() - 1.0 / c.beta;
    // variance of cos at this temperature and a generous correlation time
    let var = 1.0 + 1.0 / (c.beta * c.beta) - 1.0 / c.beta.tanh().powi(2);
    let tau = 8.0 * (1.0 + c.beta) / gamma * (1.0 + 1.0 / c.beta).min(3.0);
    let tol = 0.01 + 0.02 * gamma + 6.0 * (var * tau / (k as f64 * c.dt)).sqrt();
    if !((got - want).abs() < tol) {
        o.fail("equilibrium", format!("mean bond {got:.4} instead of {want:.4} (beta {} gamma {gamma}, {k} steps, allowed {tol:.3})", c.beta));
    }
}

// ------------------------------------------------------------------------------------------- C20
fn read(o: &mut Out, f: &str) -> Vec<Vec<f64>> {
    match std::fs::read_to_string(f) {
        Ok(t) => t.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')).map(|l| l.split_whitespace().map(|w| w.parse().unwrap_or(f64::NAN)).collect()).collect(),
        Err(e) => { o.fail("log-file", format!("{f}: {e}")); vec![] }
    }
}
fn same(o: &mut Out, class: &str, what: &str, got: &[f64], want: &[f64]) -> bool {
    if got.len() < want.len() { o.fail(class, format!("{what}: {} values instead of {}", got.len(), want.len())); return false; }
    for k in 0..want.len() {
        if want[k].is_nan() {
            if !got[k].is_finite() { o.fail(class, format!("{what}: value {} is {}", k + 1, got[k])); return false; }
        } else if !((got[k] - want[k]).abs() <= 1e-9 * (1.0 + want[k].abs())) {
            o.fail(class, format!("{what}: value {} is {} instead of {}", k + 1, got[k], want[k]));
            return false;
        }
    }
    true
}
pub fn c20(g: &mut Rng, o: &mut Out, thread: u64) {
    for rep in 0..3u64 {
        let dr = *g.pick(&DRIVES);
        let n = size(g).max(4);
        let mut c = config(g, n, dr);
        c.log = true;
        c.file = format!("t{thread}-{rep}-");
        c.ssize = g.range(2, n) as i32;
        let (nn, ss) = (n as usize, c.ssize as usize);
        let about = format!("N={n} l={ss} drive {dr} tau {}", c.tau);
        let langevin = g.chance(350);
        let file = format!("{}7.dat", c.file);
        let mut want: Vec<Vec<f64>> = vec![];
        if langevin {
            let mut s = SpinChainLangevin::new(c.clone(), 7, 0.3);
            let (j, h) = (s.j(), s.h());
            for _ in 0..12 {
                let m = shake(g, &mut s, &c, &j, &h, dr);
                let t = s.time();
                yield_now();
                s.row();
                let mm = m.m(ss);
                want.push(vec![t, m.e_sub(t), m.e_sub(t), mm[0] / ss as f64, mm[1] / ss as f64, mm[2] / ss as f64, m.m(nn)[2] / n as f64, f64::NAN]);
                if !same(o, "energies", &format!("total_energy, total_energy2, system_energy of the Langevin chain ({about}, t {t})"), &s.energies(), &[m.e_total(t), m.e_total(t), m.e_sub(t)]) { return; }
                let (a, b) = s.mags();
                if !same(o, "magnetisation", &format!("m, m_tot of the Langevin chain ({about})"), &[a, b].concat(), &[m.m(ss), m.m(nn)].concat()) { return; }
            }
        } else {
            let ext = g.chance(300);
            let mut s = SpinChain::new(c.clone(), 7);
            let (j, h) = (s.j(), s.h());
            for _ in 0..12 {
                let m = shake(g, &mut s, &c, &j, &h, dr);
                let t = s.time();
                yield_now();
                if ext {
                    s.log_ext();
                    let d = m.h_ext(t);
                    for i in 1..ss.min(nn - 1) {
                        let f = add(&m.h[i], &d, 1.0);
                        want.push(vec![t, i as f64, dot(&m.s[i], &f) - 0.5 * (m.bond(i - 1) + m.bond(i)), m.s[i][0], m.s[i][1], m.s[i][2]]);
                    }
                } else {
                    s.row();
                    let mm = m.m(ss);
                    let (p, q) = (m.s[ss / 4], m.s[3 * ss / 4]);
                    want.push(vec![t, m.e_total(t), m.e_sub(t), mm[0] / ss as f64, mm[1] / ss as f64, mm[2] / ss as f64, m.m(nn)[2] / n as f64, p[0], p[1], p[2], q[0], q[1], q[2]]);
                }
                let es = (0..ss).map(|i| dot(&m.s[i], &m.h[i]) - if i + 1 < ss { m.bond(i) } else { dot(&m.s[ss - 1], &jm(&m.j[ss - 1], &m.s[0])) }).sum::<f64>() / ss as f64;
                if !same(o, "energies", &format!("total_energy, total_energy2, system_energy, mc_total_energy, mc_system_energy ({about}, t {t})"), &s.energies(), &[m.e_total(t), m.e_total(t), m.e_sub(t), m.e_plain() / n as f64, es]) { return; }
                let (a, b) = s.mags();
                if !same(o, "magnetisation", &format!("m, m_tot ({about})"), &[a, b].concat(), &[m.m(ss), m.m(nn)].concat()) { return; }
            }
        }
        let rows = read(o, &file);
        if rows.len() != want.len() { o.fail("rows", format!("{file} has {} rows instead of {} ({about})", rows.len(), want.len())); return; }
        for (k, (r, w)) in rows.iter().zip(&want).enumerate() {
            if r.len() != w.len() || !same(o, if langevin { "langevin-row" } else { "row" }, &format!("row {} of {file} ({about})", k + 1), r, w) {
                if r.len() != w.len() { o.fail("columns", format!("row {} of {file} has {} columns instead of {}", k + 1, r.len(), w.len())); }
                return;
            }
        }
        o.count("rows", want.len() as u64);
        let _ = std::fs::remove_file(&file);
    }
}
fn shake<C: Ch>(g: &mut Rng, s: &mut C, c: &Config, j: &[V], h: &[V], dr: &str) -> Model {
    match g.below(4) {
        0 => { let v = random_spins(g, c.hsize as usize); s.set(&v); s.set_time(g.uniform(-50.0, 300.0)); }
        1 => s.set_time(c.tau * g.range(0, 8) as f64 / 4.0),
        _ => for _ in 0..g.range(1, 20) { s.step(); },
    }
    model(c, j, h, &s.spins(), dr)
}
