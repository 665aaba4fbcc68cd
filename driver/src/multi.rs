//! Oracles that look at several invocations of a history together: exact profile means, independence of
//! random streams, and statistics of sampled and initial states against exact or reference values.
use crate::cfgfile::{self, Cfg};
use crate::mini;
use crate::rng::Rng;
use crate::sim::*;
use crate::walk::{parse_args, table, Viol, M};
use std::collections::BTreeMap;

struct Inv<'a> {
    step: usize,
    cfg: Cfg,
    modes: Vec<M>,
    beta: Option<f64>,
    thin: u64,
    plan: &'a Plan,
    res: &'a Res,
}

pub fn judge(sc: &Scenario, res: &[Option<Res>], v: &mut Vec<Viol>) {
    let mut inv: Vec<Inv> = vec![];
    for (i, s) in sc.steps.iter().enumerate() {
        if let (Step::Run { prog: Prog::Sc, thin, args, plan, .. }, Some(r)) = (s, &res[i]) {
            let Some(cfg) = (match r.before.get("config.toml") { None => Some(Cfg::default()), Some(b) => cfgfile::parse(b).map(|x| x.0) }) else { continue };
            let p = parse_args(args);
            let mut cfg = cfg;
            if let Some(t) = p.tau { cfg.tau = t; }
            inv.push(Inv { step: i, cfg, modes: p.modes, beta: p.beta, thin: *thin, plan, res: r });
        }
    }
    let mut bad = |prop: &str, class: &str, d: String| v.push(Viol { prop: prop.into(), class: class.into(), detail: d });
    match sc.prop.as_str() {
        "C03" => profiles(&inv, &mut bad),
        "C18" => independence(&inv, &mut bad),
        "C14" | "C15" | "C21" => statistics(&sc.prop, &inv, &mut bad),
        "C17" => fits(&inv, &mut bad),
        _ => {}
    }
}

/// Consecutive invocations that only differ in asking for one sample more draw the same random numbers when
/// one worker does all the work, so the difference of their sums is one single sample: unit spins whose
/// local energies belong to them.
fn profiles(inv: &[Inv], bad: &mut dyn FnMut(&str, &str, String)) {
    for w in inv.windows(2) {
        let (a, b) = (&w[0], &w[1]);
        if a.res.outcome != Outcome::Ok || b.res.outcome != Outcome::Ok || a.modes != b.modes || a.modes.len() != 1 { continue; }
        if a.cfg.threads != 1 || b.cfg.threads != 1 || a.plan.entropy != b.plan.entropy || a.thin != b.thin || a.beta != b.beta { continue; }
        let (na, nb, files): (i64, i64, Vec<String>) = match a.modes[0] {
            M::McProf => (a.cfg.mc_points, b.cfg.mc_points, vec!["mc_profile.dat".into()]),
            M::DynProf => (a.cfg.runs, b.cfg.runs, (1..=8).map(|k| format!("dyn_profile-{}-tau.dat", 500 * k)).collect()),
            _ => continue,
        };
        let mut c = b.cfg.clone();
        c.mc_points = a.cfg.mc_points;
        c.runs = a.cfg.runs;
        c.offset = a.cfg.offset;
        c.beta = a.cfg.beta;
        if nb != na + 1 || c != a.cfg || c.jvar != 0.0 { continue; }
        for f in files {
            let t = |i: &Inv| i.res.after.get(&f).and_then(|x| table(x).ok());
            let (Some(x), Some(y)) = (t(a), t(b)) else { continue };
            let n = c.hsize as usize;
            if x.len() != n || y.len() != n || x.iter().chain(&y).any(|r| r.len() != 5) { continue; }
            let d: Vec<Vec<f64>> = (0..n).map(|i| (1..5).map(|k| nb as f64 * y[i][k] - na as f64 * x[i][k]).collect()).collect();
            let tol = 1e-9 * nb as f64;
            for i in 0..n {
                let s = [d[i][1], d[i][2], d[i][3]];
                if (mini::norm(&s) - 1.0).abs() > tol {
                    bad("C03", "profile-sum", format!("step {}: {f} site {i}: with {nb} instead of {na} samples the sum changes by a vector of length {} instead of one spin", b.step, mini::norm(&s)));
                    return;
                }
                let (l, r) = (&d[(i + n - 1) % n], &d[(i + 1) % n]);
                let e: f64 = -0.5 * (1..4).map(|k| if k == 3 { c.lambda } else { 1.0 } * d[i][k] * (l[k] + r[k])).sum::<f64>();
                if (e - d[i][0]).abs() > 10.0 * tol {
                    bad("C03", "profile-sum", format!("step {}: {f} site {i}: sample {nb} has energy {} but its spins give {e}", b.step, d[i][0]));
                    return;
                }
            }
        }
    }
}

fn fresh_rows(i: &Inv) -> Vec<(String, Vec<f64>)> {
    let mut out = vec![];
    for (n, b) in &i.res.after {
        let old = i.res.before.get(n);
        let log = n.starts_with(&i.cfg.file) && n.ends_with(".dat");
        if log {
            if old == Some(b) { continue; }
            let text: String = String::from_utf8_lossy(b).lines().find(|l| !l.starts_with('#')).unwrap_or("").to_string();
            let row: Vec<f64> = text.split_whitespace().filter_map(|w| w.parse().ok()).collect();
            if row.len() >= 8 { out.push((n.clone(), row)); }
        }
    }
    out
}
fn fresh_samples(i: &Inv, name: &str) -> Vec<Vec<f64>> {
    let old = i.res.before.get(name).map_or(0, |b| b.len());
    let Some(b) = i.res.after.get(name) else { return vec![] };
    if b.len() < old { return vec![]; }
    table(&b[old..]).unwrap_or_default()
}

fn independence(inv: &[Inv], bad: &mut dyn FnMut(&str, &str, String)) {
    // what must never occur twice: the random part of a state, as printed
    let mut seen: BTreeMap<Vec<u64>, String> = BTreeMap::new();
    let mut check = |key: Vec<f64>, who: String, bad: &mut dyn FnMut(&str, &str, String)| {
        let k: Vec<u64> = key.iter().map(|x| (x * 1e12).round() as i64 as u64).collect();
        if let Some(o) = seen.insert(k, who.clone()) {
            bad("C18", "repeated-randomness", format!("{who} repeats {o}"));
        }
    };
    for i in inv {
        if i.res.outcome != Outcome::Ok { continue; }
        let cold = i.beta.map_or(false, |b| b >= 1e14);
        let disorder = i.cfg.jvar > 0.0 || i.cfg.hvar > 0.0;
        for (n, r) in fresh_rows(i) {
            if cold && i.thin > 25_000_000 {
                // cold chains are parallel up to rounding: they differ by their couplings and fields only, which
                // show in the energies and in the first steps of the motion
                if !disorder { continue; }
                let rows: Vec<Vec<f64>> = String::from_utf8_lossy(&i.res.after[&n]).lines().filter(|l| !l.starts_with('#')).take(3)
                    .map(|l| l.split_whitespace().filter_map(|w| w.parse().ok()).collect()).collect();
                if rows.len() < 3 || i.cfg.strob || i.cfg.hvar == 0.0 && r.len() == 8 { continue; }
                let key: Vec<f64> = rows.iter().flat_map(|r| r[1..].iter().map(|x| (x * 2e5).round() * 1e-12)).collect();
                check(key, format!("step {} {n}", i.step), bad);
                continue;
            }
            let key = if r.len() >= 13 { r[7..13].to_vec() } else { r[3..6].to_vec() };
            check(key, format!("step {} {n}", i.step), bad);
        }
        if i.modes.contains(&M::Mc) && !cold {
            for (k, r) in fresh_samples(i, "mc_live.dat").iter().enumerate() {
                if r.len() == 11 { check(r[5..11].to_vec(), format!("step {} mc_live.dat new row {}", i.step, k + 1), bad); }
            }
        }
        for m in &i.modes {
            if let (M::DynHist(_), false) = (m, cold) {
                for (k, r) in fresh_samples(i, &format!("dyn-hist-t-{}.dat", i.cfg.t)).iter().enumerate() {
                    if r.len() == 5 { check(r[1..4].to_vec(), format!("step {} dyn-hist new row {}", i.step, k + 1), bad); }
                }
            }
        }
    }
}

/// Kolmogorov-Smirnov distance of a sample in [-1, 1] to a distribution function, in units of 1/sqrt(n)
pub fn ks(x: &mut Vec<f64>, cdf: &dyn Fn(f64) -> f64) -> f64 {
    x.sort_by(|a, b| a.total_cmp(b));
    let n = x.len() as f64;
    let mut d: f64 = 0.0;
    for (i, v) in x.iter().enumerate() {
        let f = cdf(*v);
        d = d.max((f - i as f64 / n).abs()).max(((i + 1) as f64 / n - f).abs());
    }
    d * n.sqrt()
}
pub fn boltzmann_cdf(beta: f64, x: f64) -> f64 {
    if beta.abs() < 1e-6 { return 0.5 * (x + 1.0); }
    ((beta * (x - 1.0)).exp() - (-2.0 * beta).exp()) / (1.0 - (-2.0 * beta).exp())
}
/// the bound on sqrt(n) D that true samples exceed with probability 1e-9
pub const KS_MAX: f64 = 3.3;

fn statistics(prop: &str, inv: &[Inv], bad: &mut dyn FnMut(&str, &str, String)) {
    match prop {
        // two-site chains: the angle between the initial spins
        "C15" => {
            let mut by: BTreeMap<u64, Vec<f64>> = BTreeMap::new();
            for i in inv {
                if i.res.outcome != Outcome::Ok || i.cfg.ssize != 2 || i.thin < 25_000_000 { continue; }
                let b = i.beta.unwrap_or_else(|| cfgfile::solve_beta(i.cfg.ednsty));
                // without -b the program's own solution of the temperature is accurate to a per cent or so
                let key = if i.beta.is_some() { b } else { (b * 1e3).round() / 1e3 };
                for (_, r) in fresh_rows(i) {
                    if r.len() >= 13 && i.cfg.hsize == 2 {
                        by.entry(key.to_bits()).or_default().push(mini::dot(&[r[7], r[8], r[9]], &[r[10], r[11], r[12]]));
                    } else if r.len() == 8 && i.cfg.jvar == 0.0 && i.cfg.hvar == 0.0 && i.cfg.drive == "none" && i.cfg.lambda == 1.0 && i.cfg.hfield == [0.0; 3] && i.cfg.hs == [0.0; 3] {
                        by.entry(key.to_bits()).or_default().push(-r[1]);
                    }
                }
            }
            for (b, mut x) in by {
                let b = f64::from_bits(b);
                let n = x.len();
                if n < 50 { continue; }
                let d = ks(&mut x, &|q| boltzmann_cdf(b, q));
                if d > KS_MAX + 0.03 * (n as f64).sqrt() {
                    bad("C15", "initial-angle", format!("the angle between neighbours of {n} initial states is not distributed as at beta={b}: sqrt(n) D = {d:.2}"));
                }
            }
        }
        // two-site chains sampled by Monte-Carlo
        "C14" => {
            let mut groups: BTreeMap<String, (Cfg, f64, Vec<[f64; 3]>)> = BTreeMap::new();
            for i in inv {
                if i.res.outcome != Outcome::Ok || i.cfg.hsize != 2 || i.cfg.ssize != 2 || i.modes.len() != 1 || i.cfg.jvar != 0.0 || i.cfg.hvar != 0.0 { continue; }
                // without a drive the motion leaves the ensemble unchanged
                let still = i.cfg.drive == "none" && (100..=5000).contains(&i.thin);
                let b = match i.modes[0] {
                    M::Ext | M::Tau(..) => i.cfg.beta,
                    _ => i.beta.unwrap_or_else(|| cfgfile::solve_beta(i.cfg.ednsty)),
                };
                let name = format!("{:?}", i.modes[0]);
                let key = format!("{} {b} {} {:?} {:?}", &name, i.cfg.lambda, i.cfg.hfield, i.cfg.hs);
                let x: Vec<[f64; 3]> = match i.modes[0] {
                    M::Mc if i.beta.is_some() => fresh_samples(i, "mc_live.dat").iter().filter(|r| r.len() == 11)
                        .map(|r| [r[1], r[4], mini::dot(&[r[5], r[6], r[7]], &[r[8], r[9], r[10]])]).collect(),
                    M::Sim | M::Resp | M::Ext if still => fresh_rows(i).iter().filter(|r| r.1.len() >= 13)
                        .map(|(_, r)| [r[1], r[5], mini::dot(&[r[7], r[8], r[9]], &[r[10], r[11], r[12]])]).collect(),
                    // only the magnetisation is logged; |S1 + S2|^2 tells the angle
                    M::Lang(_) if still && i.cfg.hfield == [0.0; 3] && i.cfg.hs == [0.0; 3] => fresh_rows(i).iter().filter(|r| r.1.len() == 8)
                        .map(|(_, r)| [f64::NAN, r[5], 2.0 * (r[3] * r[3] + r[4] * r[4] + r[5] * r[5]) - 1.0]).collect(),
                    M::Tau(_, steps) if still => fresh_samples(i, &format!("evt{steps}.dat")).iter().filter(|r| r.len() == 7)
                        .map(|r| [r[2], r[6], f64::NAN]).collect(),
                    M::DynProf | M::McProf if still => {
                        let c = &i.cfg;
                        let reference = pair_reference(c, b);
                        let (files, n): (Vec<String>, i64) = match i.modes[0] {
                            M::DynProf => ((1..=8).map(|k| format!("dyn_profile-{}-tau.dat", 500 * k)).collect(), c.runs),
                            _ => (vec!["mc_profile.dat".into()], c.mc_points),
                        };
                        for f in files {
                            let rows = i.res.after.get(&f).and_then(|b| table(b).ok()).unwrap_or_default();
                            if rows.len() != 2 || rows.iter().any(|r| r.len() < 4) { continue; }
                            let m = (rows[0][rows[0].len() - 1] + rows[1][rows[1].len() - 1]) / 2.0;
                            let allow = 7.0 * (reference[1].1 / n as f64).sqrt() + 0.003;
                            if (m - reference[1].0).abs() > allow {
                                bad("C14", "canonical-mean", format!("step {}: {f}: mean z magnetisation of {n} samples of undriven chains at beta={b} is {m:.4} instead of {:.4} (allowed {allow:.4})", i.step, reference[1].0));
                                return;
                            }
                        }
                        continue;
                    }
                    _ => continue,
                };
                groups.entry(key).or_insert_with(|| (i.cfg.clone(), b, vec![])).2.extend(x);
            }
            for (_, (c, b, x)) in groups {
                if x.len() < 20 { continue; }
                let reference = pair_reference(&c, b);
                for k in 0..3 {
                    let n = x.len() as f64;
                    let m = x.iter().map(|r| r[k]).sum::<f64>() / n;
                    let var = reference[k].1;
                    if m.is_nan() { continue; }
                    // samples of one worker are a few hundred updates of two spins apart
                    let allow = 7.0 * (var / n).sqrt() + 0.003;
                    if (m - reference[k].0).abs() > allow {
                        let what = ["energy", "z magnetisation", "correlation"][k];
                        bad("C14", "canonical-mean", format!("mean {what} of {n} samples at beta={b} is {m:.4} instead of {:.4} (allowed {allow:.4})", reference[k].0));
                        return;
                    }
                }
            }
        }
        _ => {}
    }
}

/// Canonical mean and variance of (energy per site, m_z, S1.S2) of a clean two-site chain in a field, by an
/// independent long Metropolis run of our own (fixed seed).
fn pair_reference(c: &Cfg, beta: f64) -> [(f64, f64); 3] {
    let h: Vec<[f64; 3]> = (0..2).map(|i| if i < c.ssize { mini::add(&c.hfield, &c.hs, 1.0) } else { c.hfield }).collect();
    let j = [1.0, 1.0, c.lambda];
    let mut s = vec![[0.0, 0.0, 1.0]; 2];
    let mut g = Rng::new(99, "pair", 0);
    let (mut sum, mut sq, mut n) = ([0.0; 3], [0.0; 3], 0.0);
    for it in 0..3_000_000u64 {
        let i = (it & 1) as usize;
        let new = unit(&mut g);
        let e = |x: &[f64; 3]| -2.0 * mini::dot(x, &mini::jmul(&j, &s[1 - i])) + mini::dot(x, &h[i]);
        let de = e(&new) - e(&s[i]);
        if de <= 0.0 || g.f() < (-beta * de).exp() { s[i] = new; }
        if it > 10_000 && it % 3 == 0 {
            let cc = mini::dot(&s[0], &s[1]);
            let en = (-2.0 * mini::dot(&s[0], &mini::jmul(&j, &s[1])) + mini::dot(&s[0], &h[0]) + mini::dot(&s[1], &h[1])) / 2.0;
            let o = [en, 0.5 * (s[0][2] + s[1][2]), cc];
            for k in 0..3 { sum[k] += o[k]; sq[k] += o[k] * o[k]; }
            n += 1.0;
        }
    }
    let f = |k: usize| { let m: f64 = sum[k] / n; (m, (sq[k] / n - m * m).max(1e-12)) };
    [f(0), f(1), f(2)]
}
pub fn unit(g: &mut Rng) -> [f64; 3] {
    let z = 1.0 - 2.0 * g.f();
    let p = 2.0 * std::f64::consts::PI * g.f();
    let r = (1.0 - z * z).max(0.0).sqrt();
    [r * p.cos(), r * p.sin(), z]
}

/// the sampled ensemble of a fitting mode: field on every site, extra field on the subsystem
struct Ens { n: usize, h: Vec<[f64; 3]>, lambda: f64 }
impl Ens {
    /// mean of: bonds and all fields per site; bonds per site; magnetisation per site
    fn mean(&self, beta: f64, seed: u64) -> (f64, f64, [f64; 3]) {
        let (e, b, m, _) = self.moments(beta, seed, 0.0);
        (e, b, m)
    }
    /// and the standard deviation of the energy with `mz` times the z magnetisation added
    fn moments(&self, beta: f64, seed: u64, mz: f64) -> (f64, f64, [f64; 3], f64) {
        let j = [1.0, 1.0, self.lambda];
        let n = self.n;
        let mut g = Rng::new(seed, "ens", 1);
        let mut s: Vec<[f64; 3]> = (0..n).map(|_| unit(&mut g)).collect();
        let (mut e, mut b, mut m, mut cnt) = (0.0, 0.0, [0.0; 3], 0.0);
        let (mut q1, mut q2) = (0.0f64, 0.0f64);
        let total = 60_000 * n as u64;
        for it in 0..total {
            let i = g.below(n as u64) as usize;
            let new = unit(&mut g);
            let nb = mini::add(&s[(i + n - 1) % n], &s[(i + 1) % n], 1.0);
            let f = |x: &[f64; 3]| -mini::dot(x, &mini::jmul(&j, &nb)) + mini::dot(x, &self.h[i]);
            let de = f(&new) - f(&s[i]);
            if de <= 0.0 || g.f() < (-beta * de).exp() { s[i] = new; }
            if it > total / 20 && it % (n as u64) == 0 {
                let bonds: f64 = (0..n).map(|i| -mini::dot(&s[i], &mini::jmul(&j, &s[(i + 1) % n]))).sum::<f64>() / n as f64;
                let fld: f64 = (0..n).map(|i| mini::dot(&s[i], &self.h[i])).sum::<f64>() / n as f64;
                e += bonds + fld;
                b += bonds;
                for q in &s { m = mini::add(&m, q, 1.0 / n as f64); }
                let q = bonds + fld + mz * s.iter().map(|q| q[2]).sum::<f64>() / n as f64;
                q1 += q;
                q2 += q * q;
                cnt += 1.0;
            }
        }
        let sd = (q2 / cnt - (q1 / cnt) * (q1 / cnt)).max(0.0).sqrt();
        (e / cnt, b / cnt, [m[0] / cnt, m[1] / cnt, m[2] / cnt], sd)
    }
}

/// the ensemble a fitting mode searches, with `period` the argument of those modes that take one
fn searched_ens(flag: char, c: &Cfg, period: f64) -> Option<(f64, Ens, Ens)> {
    let pi = std::f64::consts::PI;
    let om = 2.0 * pi / if "DA".contains(flag) { period } else { c.tau };
    let (hs, hf, n): ([f64; 3], [f64; 3], i64) = match flag {
        'f' => ([1.0, 0.0, 0.0], [0.0, 0.0, -om], c.ssize),
        'F' => ([1.0, 0.0, 0.0], [0.0, 0.0, -om], c.hsize),
        'H' => (c.hs, [0.0, 0.0, -c.tau / (4.0 * pi)], c.hsize),
        'D' => ([1.0, 0.0, 0.0], [0.0, 0.0, -om], c.hsize),
        'r' => ([1.0, 0.0, 0.0], [0.0, 0.0, -om], c.hsize),
        'E' => ([0.0; 3], [0.0, 0.0, -1.0 / (2.0 * om)], c.hsize),
        'A' => ([1.0, 0.0, -om], c.hfield, c.hsize),
        _ => return None,
    };
    let ens = |ss: i64| Ens {
        n: n as usize,
        h: (0..n).map(|k| if k < ss { mini::add(&hf, &hs, 1.0) } else { hf }).collect(),
        lambda: c.lambda,
    };
    Some((om, ens(if "fA".contains(flag) { n } else { c.ssize }), ens(n)))
}
/// what the search equates with the target, per site, and its standard deviation
pub fn searched(flag: char, c: &Cfg, period: f64, beta: f64) -> (f64, f64) {
    let Some((om, ens, _)) = searched_ens(flag, c, period) else { return (0.0, 0.0) };
    let mz = if "fA".contains(flag) { om } else { 0.0 };
    let (e, _, m, sd) = ens.moments(beta, 5, mz);
    (e + mz * m[2], sd)
}

/// Clean chains: the energy at the reported temperature is the target when that is attainable, and the
/// reported observables are the canonical ones.
fn fits(inv: &[Inv], bad: &mut dyn FnMut(&str, &str, String)) {
    const TOL: f64 = 0.06;
    for i in inv {
        if i.res.outcome != Outcome::Ok || i.cfg.jvar != 0.0 || i.cfg.hvar != 0.0 || i.modes.len() != 1 { continue; }
        let M::Fit(flag, file, cols, arg) = i.modes[0] else { continue };
        let rows = fresh_samples(i, file);
        if rows.len() != 1 || rows[0].len() != cols { continue; }
        let r = &rows[0];
        let c = &i.cfg;
        let Some((om, _, ens)) = searched_ens(flag, c, arg) else { continue };
        let searched = |beta: f64| searched(flag, c, arg, beta);
        let (beta, target) = match flag {
            'D' => (r[2], c.ednsty),
            'A' => (r[2], r[7]),
            _ => (r[2], arg),
        };
        if flag == 'H' {
            if let Some(b) = Some(c.beta) { if (r[2] - b).abs() > 1e-9 * (1.0 + b.abs()) { bad("C17", "fit-row", format!("step {}: {file} reports beta {} for a configured {b}", i.step, r[2])); } }
        } else {
            if !(beta > 0.0 && beta < 5.0 + 1e-6) { bad("C17", "fit-range", format!("step {}: {file} reports beta {beta}", i.step)); return; }
            let (hot, cold) = (searched(0.012).0, searched(4.9).0);
            if target < hot && target > cold {
                let (e, sd) = searched(beta);
                // a thousand samples for every step of the bisection
                let tol = 5.5 * sd / 1000f64.sqrt() + 0.006;
                if (e - target).abs() > tol {
                    bad("C17", "fit-energy", format!("step {}: sc -{flag}: {file} reports beta {beta}, where the energy density is {e:.4}, for the target {target} (attainable: {cold:.3} to {hot:.3})", i.step));
                    return;
                }
            }
        }
        if cols < 7 { continue; }
        // the observables are those of the whole chain as subsystem
        let (e, b, m) = ens.mean(beta, 6);
        let want_e = match flag {
            'f' | 'A' => e + om * m[2],
            'r' | 'E' => {
                // bonds, the static field of the configuration, and S^x
                let st = mini::add(&c.hfield, &c.hs, 1.0);
                b + mini::dot(&st, &m) + m[0]
            }
            _ => e,
        };
        let got = &r[3..7];
        for (k, w) in [want_e, m[0], m[1], m[2]].iter().enumerate() {
            if (got[k] - w).abs() > TOL * (1.0 + w.abs() * 0.3) {
                let what = ["energy", "m_x", "m_y", "m_z"][k];
                bad("C17", "fit-observable", format!("step {}: sc -{flag}: {file} reports {what} {} at beta {beta}, the canonical mean is {w:.4}", i.step, got[k]));
                return;
            }
        }
    }
}
