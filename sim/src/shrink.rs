//! Minimises a violating plan: greedy removal over phases, actors, faults, operations and options, then
//! delta debugging of the recorded scheduling decisions.

use crate::{exec, Exec, Viol};
use model::plan::*;
use std::time::Instant;

struct S<'a> {
    dir: String,
    clause: String,
    ok: &'a dyn Fn(&str, &str) -> bool,
    t0: Instant,
    budget: f64,
    steps: Vec<String>,
    tries: u64,
}

impl<'a> S<'a> {
    fn left(&self) -> bool {
        self.t0.elapsed().as_secs_f64() < self.budget
    }
    /// Message if the plan still shows the violation.
    fn bad(&mut self, p: &Plan) -> Option<(String, Exec)> {
        self.tries += 1;
        let x = exec(p, &format!("{}/shrink", self.dir));
        if x.broken.is_some() {
            return None;
        }
        let m = x.viols.iter().find(|v| v.0 == self.clause && !(self.ok)(&v.0, &v.1)).map(|v| v.1.clone())?;
        Some((m, x))
    }
    fn attempt(&mut self, cur: &mut Plan, what: &str, f: impl FnOnce(&mut Plan)) -> bool {
        if !self.left() {
            return false;
        }
        let mut p = cur.clone();
        f(&mut p);
        if p == *cur {
            return false;
        }
        if self.bad(&p).is_some() {
            *cur = p;
            self.steps.push(what.to_string());
            true
        } else {
            false
        }
    }
}

fn each_actor(p: &mut Plan, f: &mut dyn FnMut(&mut Kind)) {
    for ph in p.phases.iter_mut() {
        for a in ph.actors.iter_mut() {
            f(&mut a.kind)
        }
    }
}
fn obj(k: &mut Kind) -> &mut Obj {
    match k {
        Kind::Cmaes { obj, .. } | Kind::Restart { obj, .. } | Kind::Func { obj, .. } => obj,
    }
}
fn each_obj(p: &mut Plan, f: &mut dyn FnMut(&mut Obj)) {
    each_actor(p, &mut |k| f(obj(k)))
}
fn each_cfg(p: &mut Plan, f: &mut dyn FnMut(&mut Cfg)) {
    each_actor(p, &mut |k| match k {
        Kind::Cmaes { cfg, .. } => f(cfg),
        Kind::Restart { r, .. } => {
            if let Some(b) = &mut r.base {
                f(b)
            }
        }
        _ => {}
    })
}
fn each_ops(p: &mut Plan, f: &mut dyn FnMut(&mut Vec<Op>)) {
    each_actor(p, &mut |k| {
        if let Kind::Cmaes { ops, .. } = k {
            f(ops)
        }
    })
}

fn ddmin<T: Clone + PartialEq>(s: &mut S, cur: &mut Plan, what: &str, get: &dyn Fn(&Plan) -> Vec<T>, set: &dyn Fn(&mut Plan, Vec<T>)) {
    let mut n = 2usize;
    loop {
        let v = get(cur);
        if v.is_empty() || !s.left() {
            return;
        }
        let chunk = v.len().div_ceil(n).max(1);
        let mut shrunk = false;
        let mut at = 0;
        while at < get(cur).len() {
            let w = get(cur);
            let mut k = w[..at].to_vec();
            k.extend_from_slice(&w[(at + chunk).min(w.len())..]);
            if s.attempt(cur, what, |p| set(p, k)) {
                shrunk = true;
            } else {
                at += chunk;
            }
            if !s.left() {
                return;
            }
        }
        if chunk == 1 {
            if !shrunk {
                return;
            }
        } else {
            n *= 2;
        }
    }
}

pub fn shrink(v: &Viol, dir: &str, budget: f64, ok: &dyn Fn(&str, &str) -> bool) -> Option<(Plan, String, Vec<String>, Vec<u64>)> {
    let mut s = S { dir: dir.to_string(), clause: v.clause.clone(), ok, t0: Instant::now(), budget, steps: vec![], tries: 0 };
    let mut cur = v.plan.clone();
    let t = Instant::now();
    s.bad(&cur)?;
    let slow = t.elapsed().as_secs_f64() > 10.0;
    // only the phase that matters
    if let (Some(k), true) = (v.phase, cur.phases.len() > 1) {
        if !slow {
            s.attempt(&mut cur, "single phase", |p| {
                if let Some(&(_, ta, fp, fa)) = p.seeds_from.iter().find(|x| x.0 == k) {
                    let _ = (ta, fp, fa);
                    return;
                }
                p.phases = vec![p.phases[k].clone()];
                p.cmps.clear();
                p.seeds_from.clear();
                p.lines.clear();
            });
        }
    }
    if !slow {
        s.attempt(&mut cur, "no line comparison", |p| p.lines.clear());
        if !cur.lines.is_empty() {
            s.attempt(&mut cur, "no transcript comparison", |p| p.cmps.clear());
        }
        for c in (0..cur.cmps.len()).rev() {
            if cur.cmps.len() > 1 {
                s.attempt(&mut cur, "drop a comparison", |p| {
                    p.cmps.remove(c);
                });
            }
        }
        // an instance together with its solo phase
        for k in (0..cur.phases.len()).rev() {
            if cur.lines.len() != 1 || !cur.cmps.is_empty() || cur.lines[0].0.len() < 2 {
                break;
            }
            s.attempt(&mut cur, "drop an instance", |p| {
                let w = p.lines[0].1;
                if let Some(at) = p.lines[0].0.iter().position(|x| *x == k) {
                    p.phases[w].actors.remove(at);
                    p.phases.remove(k);
                    p.lines[0].0.remove(at);
                    p.lines[0].0.iter_mut().for_each(|x| *x -= (*x > k) as usize);
                    p.lines[0].1 -= (w > k) as usize;
                }
            });
        }
        // phases nobody compares
        for k in (0..cur.phases.len()).rev() {
            if cur.cmps.is_empty() || cur.phases.len() == 1 || !cur.lines.is_empty() {
                break;
            }
            if cur.cmps.iter().any(|c| c.a == k || c.b == k) || cur.seeds_from.iter().any(|f| f.0 == k || f.2 == k) {
                continue;
            }
            s.attempt(&mut cur, "drop a phase", |p| {
                p.phases.remove(k);
                for c in p.cmps.iter_mut() {
                    if c.a > k {
                        c.a -= 1
                    }
                    if c.b > k {
                        c.b -= 1
                    }
                }
                for f in p.seeds_from.iter_mut() {
                    if f.0 > k {
                        f.0 -= 1
                    }
                    if f.2 > k {
                        f.2 -= 1
                    }
                }
            });
        }
        for round in 0..4 {
            let before = cur.clone();
            pass(&mut s, &mut cur);
            if cur == before || !s.left() {
                break;
            }
            let _ = round;
        }
        explicit(&mut s, &mut cur);
    }
    let (msg, x) = {
        // the final plan, executed once more
        s.budget = f64::INFINITY;
        s.bad(&cur)?
    };
    let steps = compress(&s.steps, s.tries);
    Some((cur, msg, steps, x.reps.iter().map(|r| r.as_ref().map_or(0, |r| r.full_hash)).collect()))
}

fn compress(v: &[String], tries: u64) -> Vec<String> {
    let mut out: Vec<(String, usize)> = vec![];
    for s in v {
        match out.iter_mut().find(|o| o.0 == *s) {
            Some(o) => o.1 += 1,
            None => out.push((s.clone(), 1)),
        }
    }
    let mut r: Vec<String> = out.into_iter().map(|(s, n)| format!("{} (x{})", s, n)).collect();
    r.push(format!("{} candidate plans executed", tries));
    r
}

fn pass(s: &mut S, cur: &mut Plan) {
    // actors (only where nothing refers to them by number)
    for k in 0..cur.phases.len() {
        if cur.cmps.iter().any(|c| c.a == k || c.b == k) || !cur.seeds_from.is_empty() || !cur.lines.is_empty() {
            continue;
        }
        for a in (0..cur.phases[k].actors.len()).rev() {
            if cur.phases[k].actors.len() > 1 {
                s.attempt(cur, "drop an actor", |p| {
                    p.phases[k].actors.remove(a);
                });
            }
        }
    }
    // environment
    for k in 0..cur.phases.len() {
        s.attempt(cur, "cooperative schedule", |p| p.phases[k].sim.policy = Policy::Coop);
        s.attempt(cur, "no spurious wakeups", |p| p.phases[k].sim.spurious = F(0.0));
        s.attempt(cur, "no pauses", |p| p.phases[k].sim.leaps.clear());
        s.attempt(cur, "no wall clock steps", |p| p.phases[k].sim.wall_jumps.clear());
        s.attempt(cur, "no stdout faults", |p| p.phases[k].sim.stdout = IoPlan::default());
        s.attempt(cur, "no disk faults", |p| p.phases[k].sim.disk = IoPlan::default());
        s.attempt(cur, "no disk capacity", |p| p.phases[k].sim.disk.capacity = None);
        s.attempt(cur, "one worker", |p| p.phases[k].sim.workers = 1);
        if cur.phases[k].sim.workers > 2 {
            s.attempt(cur, "two workers", |p| p.phases[k].sim.workers = 2);
        }
        for a in 0..cur.phases[k].actors.len() {
            s.attempt(cur, "on the main thread", |p| {
                if !p.phases[k].actors.iter().any(|x| x.place.is_none()) {
                    p.phases[k].actors[a].place = None
                }
            });
        }
        ddmin(s, cur, "drop a disk fault", &|p| p.phases[k].sim.disk.at.clone(), &|p, v| p.phases[k].sim.disk.at = v);
    }
    // faults, the same ones in all twins
    let most = |p: &Plan| {
        let mut m = 0;
        each_obj(&mut p.clone(), &mut |o| m = m.max(o.faults.len()));
        m
    };
    let mut i = 0;
    while i < most(cur) {
        if !s.attempt(cur, "drop an objective fault", |p| {
            each_obj(p, &mut |o| {
                if i < o.faults.len() {
                    o.faults.remove(i);
                }
            })
        }) {
            i += 1;
        }
    }
    s.attempt(cur, "no delays", |p| each_obj(p, &mut |o| o.delay_ns = 0));
    s.attempt(cur, "no spinning", |p| each_obj(p, &mut |o| o.spin = 0));
    s.attempt(cur, "no nesting", |p| each_obj(p, &mut |o| o.nested = None));
    s.attempt(cur, "no nested join", |p| each_obj(p, &mut |o| o.nested_join = false));
    s.attempt(cur, "no drift", |p| each_obj(p, &mut |o| o.drift = F(0.0)));
    s.attempt(cur, "plain struct objective", |p| each_obj(p, &mut |o| o.form = Form::Struct));
    // operations: the same ones in all twins
    let lens = |p: &Plan| {
        let mut m = 0;
        each_ops(&mut p.clone(), &mut |o| m = m.max(o.len()));
        m
    };
    let mut i = 0;
    while i < lens(cur) {
        if !s.attempt(cur, "drop an operation", |p| {
            each_ops(p, &mut |o| {
                if i < o.len() {
                    o.remove(i);
                }
            })
        }) {
            i += 1;
        }
    }
    for i in 0..lens(cur) {
        for d in [8u64, 2] {
            loop {
                let ok = s.attempt(cur, "fewer generations", |p| {
                    each_ops(p, &mut |o| {
                        if let Some(Op::Gens { n, .. }) = o.get_mut(i) {
                            *n = (*n / d).max(1)
                        }
                    })
                });
                if !ok {
                    break;
                }
            }
        }
        loop {
            let ok = s.attempt(cur, "one generation fewer", |p| {
                each_ops(p, &mut |o| {
                    if let Some(Op::Gens { n, .. }) = o.get_mut(i) {
                        *n = n.saturating_sub(1).max(1)
                    }
                })
            });
            if !ok {
                break;
            }
        }
    }
    // configuration
    macro_rules! none {
        ($($f:ident),*) => {$(
            s.attempt(cur, concat!("default ", stringify!($f)), |p| each_cfg(p, &mut |c| c.$f = None));
        )*};
    }
    none!(con, max_resamples, max_evals, max_gens, max_time_ns, fun_target, tol_fun, tol_fun_rel, tol_fun_hist, tol_x, tol_stagnation, tol_x_up, tol_condition_cov, plot_gap, print_gap, lambda);
    s.attempt(cur, "lambda 4", |p| each_cfg(p, &mut |c| c.lambda = Some(c.lambda.map_or(4, |l| l.min(4)))));
    s.attempt(cur, "cm 1", |p| each_cfg(p, &mut |c| c.cm = F(1.0)));
    s.attempt(cur, "default weights", |p| each_cfg(p, &mut |c| c.weights = W::Negative));
    s.attempt(cur, "sigma 1", |p| each_cfg(p, &mut |c| c.sigma = F(1.0)));
    s.attempt(cur, "mean 0", |p| each_cfg(p, &mut |c| c.mean.iter_mut().for_each(|m| *m = F(0.0))));
    s.attempt(cur, "no parallel update", |p| each_cfg(p, &mut |c| c.parallel_update = false));
    s.attempt(cur, "no base options", |p| {
        each_actor(p, &mut |k| {
            if let Kind::Restart { r, .. } = k {
                r.base = None
            }
        })
    });
    s.attempt(cur, "no restart target", |p| {
        each_actor(p, &mut |k| {
            if let Kind::Restart { r, .. } = k {
                r.fun_target = None
            }
        })
    });
    for d in [1usize, 2, 3, 5] {
        if s.attempt(cur, "fewer dimensions", |p| {
            each_actor(p, &mut |k| match k {
                Kind::Cmaes { cfg, .. } => {
                    cfg.mean.truncate(d);
                    if let Some(Con::Bounds { lo, hi }) = &mut cfg.con {
                        lo.truncate(d);
                        hi.truncate(d);
                    }
                }
                Kind::Restart { r, .. } => {
                    r.dim = r.dim.min(d);
                    if let Some(b) = &mut r.base {
                        b.mean.truncate(d);
                    }
                }
                Kind::Func { mean, .. } => mean.truncate(d),
            })
        }) {
            break;
        }
    }
    s.attempt(cur, "sphere", |p| each_obj(p, &mut |o| o.fun = Fun::Sphere));
    s.attempt(cur, "no shift", |p| each_obj(p, &mut |o| o.shift.clear()));
    s.attempt(cur, "unit scale", |p| each_obj(p, &mut |o| o.scale = F(1.0)));
    s.attempt(cur, "no offset", |p| each_obj(p, &mut |o| o.offset = F(0.0)));
}

/// Replaces a pseudo-random schedule by the list of its decisions and removes what is not needed.
fn explicit(s: &mut S, cur: &mut Plan) {
    for k in 0..cur.phases.len() {
        if matches!(cur.phases[k].sim.policy, Policy::Coop | Policy::Explicit { .. }) || !s.left() {
            continue;
        }
        let x = match s.bad(cur) {
            Some((_, x)) => x,
            None => return,
        };
        let (pr, sy) = match x.reps.get(k).and_then(|r| r.as_ref()) {
            Some(r) => (r.preempt.clone(), r.sync.clone()),
            None => continue,
        };
        if !s.attempt(cur, "explicit schedule", |p| {
            p.phases[k].sim.policy = Policy::Explicit { preempt: pr, sync: sy };
            p.phases[k].sim.spurious = F(0.0);
        }) {
            continue;
        }
        ddmin(
            s,
            cur,
            "drop preemptions",
            &|p| match &p.phases[k].sim.policy {
                Policy::Explicit { preempt, .. } => preempt.clone(),
                _ => vec![],
            },
            &|p, v| {
                if let Policy::Explicit { preempt, .. } = &mut p.phases[k].sim.policy {
                    *preempt = v
                }
            },
        );
        ddmin(
            s,
            cur,
            "drop wake-up choices",
            &|p| match &p.phases[k].sim.policy {
                Policy::Explicit { sync, .. } => sync.clone(),
                _ => vec![],
            },
            &|p, v| {
                if let Policy::Explicit { sync, .. } = &mut p.phases[k].sim.policy {
                    *sync = v
                }
            },
        );
    }
}
