//! Shrinks a failing scenario while the same violation (property and class) persists.
use crate::sim::*;
use crate::walk::{self, Viol};
use std::time::Instant;

pub struct Min {
    r: Runner,
    prop: String,
    class: String,
    started: Instant,
    limit: f64,
    pub tries: u64,
}
impl Min {
    pub fn new(env: &Env, prop: &str, class: &str, limit: f64) -> Min {
        Min { r: Runner::new(env, 99), prop: prop.into(), class: class.into(), started: Instant::now(), limit, tries: 0 }
    }
    fn out(&self) -> bool {
        self.started.elapsed().as_secs_f64() > self.limit
    }
    fn fails(&mut self, sc: &Scenario) -> Option<(Viol, Vec<Option<Res>>)> {
        if self.out() { return None; }
        self.tries += 1;
        let res = self.r.execute(sc);
        if self.r.env.over() { return None; }
        walk::judge(sc, &res).into_iter().find(|v| v.prop == self.prop && v.class == self.class).map(|v| (v, res))
    }
    pub fn run(&mut self, sc: Scenario, v: Viol) -> (Scenario, Viol) {
        let (mut best, mut bv) = (sc, v);
        macro_rules! attempt {
            ($c:expr) => {{
                let c = $c;
                if let Some((v, _)) = self.fails(&c) { best = c; bv = v; true } else { false }
            }};
        }
        // whole steps, last ones first
        let mut changed = true;
        while changed && !self.out() {
            changed = false;
            let mut i = best.steps.len();
            while i > 0 {
                i -= 1;
                if best.steps.len() <= 1 { break; }
                let mut c = best.clone();
                c.steps.remove(i);
                changed |= attempt!(c);
            }
        }
        let runs: Vec<usize> = (0..best.steps.len()).filter(|i| matches!(best.steps[*i], Step::Run { .. })).collect();
        for &i in &runs {
            // faults
            let mut k = 0;
            loop {
                let Step::Run { plan, .. } = &best.steps[i] else { break };
                if k >= plan.faults.len() { break; }
                let mut c = best.clone();
                if let Step::Run { plan, .. } = &mut c.steps[i] { plan.faults.remove(k); }
                if !attempt!(c) { k += 1; }
            }
            // everything that is unusual about the environment
            let simple: [&dyn Fn(&mut Plan); 5] = [
                &|p| { p.policy = "seq".into(); p.spurious = 0; },
                &|p| p.spurious = 0,
                &|p| p.tty = false,
                &|p| p.shuffledir = false,
                &|p| p.tick = 1000,
            ];
            for f in simple {
                let mut c = best.clone();
                let Step::Run { plan, .. } = &mut c.steps[i] else { continue };
                let before = plan.lines();
                f(plan);
                if plan.lines() != before { attempt!(c); }
            }
            let mut c = best.clone();
            if let Step::Run { powerloss, .. } = &mut c.steps[i] { if powerloss.take().is_some() { attempt!(c); } }
        }
        self.config(&mut best, &mut bv);
        // schedules: from a policy to the list of deviations from running the same thread on
        for &i in &runs {
            if self.out() { break; }
            let Step::Run { plan, .. } = &best.steps[i] else { continue };
            if plan.policy == "seq" { continue; }
            let Some((_, res)) = self.fails(&best.clone()) else { break };
            let t = &res[i].as_ref().unwrap().trace;
            if t.ndev as usize != t.devs.len() { continue; }
            let devs = t.devs.clone();
            let mut c = best.clone();
            if let Step::Run { plan, .. } = &mut c.steps[i] { plan.policy = "replay".into(); plan.devs = devs; }
            if !attempt!(c) { continue; }
            let mut size = { let Step::Run { plan, .. } = &best.steps[i] else { unreachable!() }; plan.devs.len() / 2 };
            while size >= 1 && !self.out() {
                let mut at = 0;
                loop {
                    let Step::Run { plan, .. } = &best.steps[i] else { unreachable!() };
                    if at >= plan.devs.len() || self.out() { break; }
                    let end = (at + size).min(plan.devs.len());
                    let mut c = best.clone();
                    if let Step::Run { plan, .. } = &mut c.steps[i] { plan.devs.drain(at..end); }
                    if !attempt!(c) { at += size; }
                }
                size /= 2;
            }
        }
        // the final word is an execution of exactly what is written to the replay file
        let (text, _) = Scenario::parse(&best.text("", ""));
        self.limit += 1e6;
        *self.r.env.cut.lock().unwrap() = Instant::now() + std::time::Duration::from_secs(120);
        if let Some((v, _)) = self.fails(&text) { bv = v; }
        (best, bv)
    }
    fn config(&mut self, best: &mut Scenario, bv: &mut Viol) {
        for i in 0..best.steps.len() {
            let Step::Edit { name, content: Some(b) } = &best.steps[i] else { continue };
            if name != "config.toml" { continue; }
            let Ok(text) = String::from_utf8(b.clone()) else { continue };
            let mut lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
            let mut k = 0;
            while k < lines.len() {
                if self.out() { return; }
                let mut opts: Vec<Option<String>> = vec![None];
                if let Some((key, v)) = lines[k].split_once(" = ") {
                    for (n, w) in [("runs", "1"), ("threads", "1"), ("mc_points", "1"), ("hsize", "4"), ("t", "0.0"), ("trel", "0.0"), ("ssize", "4"), ("offset", "0")] {
                        if n == key && w != v { opts.push(Some(format!("{n} = {w}"))); }
                    }
                }
                let mut removed = false;
                for o in opts {
                    let mut l = lines.clone();
                    match &o { None => { l.remove(k); } Some(s) => l[k] = s.clone() }
                    let mut c = best.clone();
                    let body: String = l.iter().map(|s| format!("{s}\n")).collect();
                    if let Step::Edit { content, .. } = &mut c.steps[i] { *content = Some(body.into_bytes()); }
                    if let Some((v, _)) = self.fails(&c) {
                        *best = c;
                        *bv = v;
                        lines = l;
                        removed = o.is_none();
                        break;
                    }
                }
                if !removed { k += 1; }
            }
        }
    }
}
