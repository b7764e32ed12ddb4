//! Oracles over the history of one optimiser instance.

use crate::hist::*;
use crate::la;
use crate::plan::*;

#[derive(Clone, Debug)]
pub struct Viol {
    pub clause: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Out {
    pub v: Vec<Viol>,
    pub checks: Vec<(&'static str, u64)>,
}
impl Out {
    pub fn bad(&mut self, clause: &str, msg: String) {
        // (a recorded finding that shows in every generation must not end the search for others)
        if self.v.len() < 20 && self.v.iter().filter(|v| v.clause == clause).count() < 3 {
            self.v.push(Viol { clause: clause.to_string(), msg });
        }
    }
    pub fn n(&mut self, k: &'static str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        for c in self.checks.iter_mut() {
            if c.0 == k {
                c.1 += n;
                return;
            }
        }
        self.checks.push((k, n));
    }
}

pub fn better(maximize: bool, a: f64, b: f64) -> bool {
    if maximize {
        a > b
    } else {
        a < b
    }
}
pub fn beq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
fn ulp(x: f64) -> f64 {
    let a = x.abs();
    if !a.is_finite() {
        return f64::INFINITY;
    }
    f64::from_bits(a.to_bits() + 1) - a
}
fn maxabs(x: &[f64]) -> f64 {
    x.iter().fold(0.0, |a: f64, b| a.max(b.abs()))
}
fn finite(x: &[f64]) -> bool {
    x.iter().all(|v| v.is_finite())
}

/// One `next`/`next_parallel` call.
pub struct Ga<'a> {
    pub i: usize,
    pub s: &'a Step,
    pub before: &'a Snap,
    pub ev: &'a [EvalRec],
    pub nan: bool,
    pub pan: bool,
    /// lambda evaluations, all finished, none NaN
    pub full: bool,
}

pub fn prev<'a>(a: &'a ActorHist, i: usize) -> &'a Snap {
    if i == 0 {
        a.initial.as_ref().unwrap()
    } else {
        &a.steps[i - 1].after
    }
}

/// The objective or the constraint panicked during this step.
fn threw(a: &ActorHist, s: &Step) -> bool {
    a.evals[s.e0..s.e1].iter().any(|e| e.panicked) || a.cons[s.c0..s.c1].iter().any(|c| c.panicked)
}

pub fn gens<'a>(a: &'a ActorHist) -> Vec<Ga<'a>> {
    let p = a.params.as_ref().unwrap();
    a.steps
        .iter()
        .enumerate()
        .filter(|(_, s)| s.op.is_gen())
        .map(|(i, s)| {
            let ev = &a.evals[s.e0..s.e1];
            let nan = ev.iter().any(|e| e.done && e.v.is_nan());
            let pan = threw(a, s);
            Ga {
                i,
                s,
                before: prev(a, i),
                ev,
                nan,
                pan,
                full: !nan && !pan && ev.len() == p.lambda && ev.iter().all(|e| e.done),
            }
        })
        .collect()
}

/// The completed generations among the evaluations of a step (run or next).
pub fn chunks<'a>(ev: &'a [EvalRec], lambda: usize) -> Vec<&'a [EvalRec]> {
    ev.chunks(lambda)
        .filter(|c| c.len() == lambda && c.iter().all(|e| e.done && !e.v.is_nan() && !e.panicked))
        .collect()
}

fn desc(s: &Step, i: usize) -> String {
    format!("step {} ({:?})", i, s.op)
}

// ---------------------------------------------------------------------------------------------

/// Nothing but the injected panic may come out of a call, and only if one was injected.
pub fn panics(ai: usize, a: &ActorHist, o: &mut Out) {
    if let Some(e) = &a.build_err {
        o.bad("build", format!("actor {}: valid options rejected: {}", ai, e));
    }
    for (i, s) in a.steps.iter().enumerate() {
        o.n("calls_checked_for_panics");
        match &s.out {
            Outcome::LibPanic(m) => {
                o.bad("panic", format!("actor {} {}: panicked: {}", ai, desc(s, i), m))
            }
            Outcome::Injected => {
                if !a.evals[s.e0..s.e1].iter().any(|e| e.panicked) && !a.cons[s.c0..s.c1].iter().any(|e| e.panicked) {
                    o.bad("panic", format!("actor {} {}: objective panic resurfaced in a later call", ai, desc(s, i)));
                }
            }
            _ => {
                if a.evals[s.e0..s.e1].iter().any(|e| e.panicked) || a.cons[s.c0..s.c1].iter().any(|e| e.panicked) {
                    o.bad("panic-swallowed", format!("actor {} {}: a panic of the objective or the constraint did not reach the caller", ai, desc(s, i)));
                }
            }
        }
        if s.inflight != 0 {
            o.bad("in-flight", format!(
                "actor {} {}: the call returned while {} evaluations were still running", ai, desc(s, i), s.inflight));
        }
    }
    if let Some((inj, m)) = &a.panic {
        let injected = a.evals.iter().any(|e| e.panicked);
        if !*inj {
            o.bad("panic", format!("actor {}: panicked: {}", ai, m));
        } else if !injected {
            o.bad("panic", format!("actor {}: injected panic without injection", ai));
        }
    } else if a.steps.is_empty() && a.evals.iter().any(|e| e.panicked) {
        o.bad("panic-swallowed", format!("actor {}: an objective panic did not reach the caller", ai));
    }
    if !a.done {
        o.bad("unfinished", format!("actor {} did not finish", ai));
    }
}

pub fn account(ai: usize, a: &ActorHist, o: &mut Out) {
    let (p, init) = match (&a.params, &a.initial) {
        (Some(p), Some(i)) => (p, i),
        _ => return,
    };
    if init.fevals != 0 || init.gen != 0 {
        o.bad("initial", format!("actor {}: a new instance reports {} evaluations and generation {}", ai, init.fevals, init.gen));
    }
    if a.steps.first().map(|s| s.e0).unwrap_or(a.evals.len()) != 0 {
        o.bad("initial", format!("actor {}: building the instance evaluated the objective", ai));
    }
    for (i, s) in a.steps.iter().enumerate() {
        let b = prev(a, i);
        let calls = s.e1 - s.e0;
        let df = s.after.fevals.wrapping_sub(b.fevals);
        let dg = s.after.gen.wrapping_sub(b.gen);
        let ev = &a.evals[s.e0..s.e1];
        let pan = threw(a, s);
        let nan = ev.iter().any(|e| e.done && e.v.is_nan());
        o.n("calls_accounted");
        if matches!(s.out, Outcome::LibPanic(_)) {
            continue;
        }
        if !s.op.is_gen() && !s.op.is_run() {
            if calls != 0 || df != 0 || dg != 0 {
                o.bad("observer", format!("actor {} {}: evaluated {} points, function_evals +{}, generation +{}", ai, desc(s, i), calls, df, dg));
            }
            continue;
        }
        let posdef = match &s.out {
            Outcome::Term(t) => t.reasons.contains(&R::PosDefCov),
            _ => false,
        };
        if pan {
            if df > calls {
                o.bad("count", format!("actor {} {}: panicked after {} evaluations but function_evals rose by {}", ai, desc(s, i), calls, df));
            }
        } else if df != calls {
            o.bad("count", format!("actor {} {}: objective called {} times but function_evals rose by {}", ai, desc(s, i), calls, df));
        }
        if s.op.is_gen() {
            let want = if pan || nan || posdef { 0 } else { 1 };
            if dg != want {
                o.bad("generation", format!("actor {} {}: generation rose by {} (expected {})", ai, desc(s, i), dg, want));
            }
            if !pan && !nan && calls != p.lambda {
                o.bad("lambda", format!("actor {} {}: {} evaluations in a generation of lambda={}", ai, desc(s, i), calls, p.lambda));
            }
            if calls > p.lambda {
                o.bad("lambda", format!("actor {} {}: {} evaluations in a generation of lambda={}", ai, desc(s, i), calls, p.lambda));
            }
        } else if !pan {
            let g = dg + posdef as usize;
            if !nan && calls != g * p.lambda {
                o.bad("lambda", format!("actor {} {}: {} evaluations in {} generations of lambda={}", ai, desc(s, i), calls, g, p.lambda));
            }
            if nan && (calls <= dg * p.lambda || calls > (dg + 1) * p.lambda) {
                o.bad("lambda", format!("actor {} {}: {} evaluations, {} completed generations of lambda={}, then an invalid value", ai, desc(s, i), calls, dg, p.lambda));
            }
        }
        // every sampled point is evaluated once
        for c in ev.chunks(p.lambda) {
            let spread = b.sigma * b.eig.iter().cloned().fold(f64::INFINITY, f64::min).sqrt();
            let m = maxabs(&b.mean);
            if s.op.is_gen() && spread > 1e-3 * m && p.dim >= 2 && spread.is_finite() && c.iter().all(|e| finite(&e.x)) {
                let mut xs: Vec<Vec<u64>> = c.iter().map(|e| e.x.iter().map(|v| v.to_bits()).collect()).collect();
                xs.sort();
                if xs.windows(2).any(|w| w[0] == w[1]) {
                    o.bad("duplicate", format!("actor {} {}: the same point was evaluated twice in one generation", ai, desc(s, i)));
                }
                o.n("generations_checked_for_duplicates");
            }
            if c.iter().any(|e| e.x.len() != p.dim) {
                o.bad("dimension", format!("actor {} {}: a point of the wrong dimension was evaluated", ai, desc(s, i)));
            }
        }
    }
}

fn check_member(best: &Option<(Vec<f64>, f64)>, ev: &[&[EvalRec]], maximize: bool) -> Result<(), String> {
    // best over ev
    let mut bv: Option<f64> = None;
    for e in ev.iter().flat_map(|c| c.iter()) {
        if bv.is_none() || better(maximize, e.v, bv.unwrap()) {
            bv = Some(e.v);
        }
    }
    match (best, bv) {
        (None, None) => Ok(()),
        (None, Some(v)) => Err(format!("is None, the best evaluated value is {:e}", v)),
        (Some((_, v)), None) => Err(format!("is {:e} without any completed generation", v)),
        (Some((x, v)), Some(w)) => {
            if *v != w {
                return Err(format!("has value {:e}, the best evaluated value is {:e}", v, w));
            }
            if !ev.iter().flat_map(|c| c.iter()).any(|e| e.v == *v && beq(&e.x, x)) {
                return Err(format!("claims value {:e} for a point that was never evaluated to it", v));
            }
            Ok(())
        }
    }
}

pub fn bests(ai: usize, a: &ActorHist, o: &mut Out) {
    let (p, init) = match (&a.params, &a.initial) {
        (Some(p), Some(i)) => (p, i),
        _ => return,
    };
    if init.cur.is_some() || init.best.is_some() {
        o.bad("initial", format!("actor {}: a new instance already has a best individual", ai));
    }
    // best so far, incrementally
    let mut ov: Option<f64> = None;
    let mut opts: Vec<&EvalRec> = vec![];
    let mut last: Option<&[EvalRec]> = None;
    for (i, s) in a.steps.iter().enumerate() {
        if matches!(s.out, Outcome::LibPanic(_)) {
            return;
        }
        let b = prev(a, i);
        let full = if s.op.is_gen() || s.op.is_run() { chunks(&a.evals[s.e0..s.e1], p.lambda) } else { vec![] };
        for c in &full {
            for e in c.iter() {
                match ov {
                    Some(v) if better(p.maximize, e.v, v) => {
                        ov = Some(e.v);
                        opts = vec![e];
                    }
                    None => {
                        ov = Some(e.v);
                        opts = vec![e];
                    }
                    Some(v) if v == e.v => {
                        if opts.len() < 4096 {
                            opts.push(e)
                        }
                    }
                    _ => {}
                }
            }
            last = Some(c);
        }
        o.n("best_individual_checks");
        let cur_set: Vec<&[EvalRec]> = last.into_iter().collect();
        if let Err(m) = check_member(&s.after.cur, &cur_set, p.maximize) {
            o.bad("current-best", format!("actor {} {}: current best {}", ai, desc(s, i), m));
        }
        match (&s.after.best, ov) {
            (None, None) => {}
            (Some((x, v)), Some(w)) => {
                if *v != w {
                    o.bad("overall-best", format!("actor {} {}: overall best has value {:e}, the best value of all completed generations is {:e}", ai, desc(s, i), v, w));
                } else if opts.len() < 4096 && !opts.iter().any(|e| beq(&e.x, x)) {
                    o.bad("overall-best", format!("actor {} {}: overall best claims value {:e} for a point that was never evaluated to it", ai, desc(s, i), v));
                }
            }
            (x, w) => o.bad("overall-best", format!("actor {} {}: overall best is {:?}, best evaluated value {:?}", ai, desc(s, i), x.as_ref().map(|y| y.1), w)),
        }
        if full.is_empty() {
            let same = |x: &Option<(Vec<f64>, f64)>, y: &Option<(Vec<f64>, f64)>| match (x, y) {
                (None, None) => true,
                (Some(p), Some(q)) => beq(&p.0, &q.0) && p.1.to_bits() == q.1.to_bits(),
                _ => false,
            };
            if !same(&b.cur, &s.after.cur) || !same(&b.best, &s.after.best) {
                o.bad("unchanged", format!("actor {} {}: best individuals changed without a completed generation", ai, desc(s, i)));
            }
        }
        if let Outcome::Term(t) = &s.out {
            let q = |x: &Option<(Vec<f64>, f64)>, y: &Option<(Vec<f64>, f64)>| match (x, y) {
                (None, None) => true,
                (Some(p), Some(q)) => beq(&p.0, &q.0) && p.1.to_bits() == q.1.to_bits(),
                _ => false,
            };
            if !q(&t.cur, &s.after.cur) || !q(&t.best, &s.after.best) || !beq(&t.mean, &s.after.mean) {
                o.bad("termination-data", format!("actor {} {}: TerminationData differs from the instance's accessors", ai, desc(s, i)));
            }
        }
    }
}

pub fn nan(ai: usize, a: &ActorHist, o: &mut Out) {
    if a.params.is_none() {
        return;
    }
    for (i, s) in a.steps.iter().enumerate() {
        if !s.op.is_gen() && !s.op.is_run() {
            continue;
        }
        let ev = &a.evals[s.e0..s.e1];
        let nan = ev.iter().any(|e| e.done && e.v.is_nan());
        let pan = threw(a, s);
        match &s.out {
            Outcome::Term(t) => {
                let inv = t.reasons.contains(&R::InvalidFunctionValue);
                if nan {
                    o.n("nan_generations");
                    if t.reasons != [R::InvalidFunctionValue] {
                        o.bad("reason", format!("actor {} {}: the objective returned NaN, reported {:?}", ai, desc(s, i), t.reasons));
                    }
                } else if inv {
                    o.bad("reason", format!("actor {} {}: InvalidFunctionValue although no NaN was returned", ai, desc(s, i)));
                }
            }
            Outcome::Go if nan && !pan => {
                o.bad("reason", format!("actor {} {}: the objective returned NaN and the call returned None", ai, desc(s, i)));
            }
            _ => {}
        }
        if nan && s.op.is_gen() && !pan {
            if let Some(f) = prev(a, i).diff(&s.after) {
                o.bad("state", format!("actor {} {}: {} changed in a generation with an invalid value", ai, desc(s, i), f));
            }
        }
        for (w, b) in [("current", &s.after.cur), ("overall", &s.after.best)] {
            if let Some((_, v)) = b {
                if v.is_nan() {
                    o.bad("poison", format!("actor {} {}: {} best value is NaN", ai, desc(s, i), w));
                }
            }
        }
        if !(finite(&s.after.mean) && s.after.sigma.is_finite()) && finite(&prev(a, i).mean) && prev(a, i).sigma.is_finite() && matches!(s.out, Outcome::Go) {
            o.bad("poison", format!("actor {} {}: non-finite mean or sigma without termination", ai, desc(s, i)));
        }
    }
}

/// After an injected panic the instance is as before the call.
pub fn after_panic(ai: usize, a: &ActorHist, o: &mut Out) {
    if a.params.is_none() {
        return;
    }
    for (i, s) in a.steps.iter().enumerate() {
        if s.op.is_gen() && matches!(s.out, Outcome::Injected) {
            o.n("panicked_generations");
            if let Some(f) = prev(a, i).diff(&s.after) {
                o.bad("state", format!("actor {} {}: {} changed in a generation that panicked", ai, desc(s, i), f));
            }
        }
    }
}

/// Distinct generations never sample the same point (the RNG stream never goes back).
pub fn fresh_points(ai: usize, a: &ActorHist, o: &mut Out) {
    let p = match &a.params {
        Some(p) => p,
        None => return,
    };
    if p.dim < 2 {
        return;
    }
    let mut all: Vec<(Vec<u64>, usize)> = vec![];
    for (i, s) in a.steps.iter().enumerate() {
        let b = prev(a, i);
        let spread = b.sigma * b.eig.iter().cloned().fold(f64::INFINITY, f64::min).sqrt();
        if !s.op.is_gen() || !(spread > 1e-6 * maxabs(&b.mean)) || !spread.is_finite() {
            continue;
        }
        // an overflowing distribution samples the same infinite points again
        for e in a.evals[s.e0..s.e1].iter().filter(|e| finite(&e.x)) {
            all.push((e.x.iter().map(|v| v.to_bits()).collect(), i));
        }
    }
    all.sort();
    for w in all.windows(2) {
        if w[0].0 == w[1].0 && w[0].1 != w[1].1 {
            o.bad("resampled", format!("actor {}: the same point was sampled in steps {} and {}", ai, w[0].1, w[1].1));
            return;
        }
    }
    o.add("points_checked_fresh", all.len() as u64);
}

// ---------------------------------------------------------------------------------------------
// Time

pub fn time(ai: usize, a: &ActorHist, o: &mut Out) {
    let (p, init) = match (&a.params, &a.initial) {
        (Some(p), Some(i)) => (p, i),
        _ => return,
    };
    let _ = init;
    let (c0, c1) = (a.t_create0, a.t_create1);
    for (i, s) in a.steps.iter().enumerate() {
        // elapsed() is monotonic simulated time since creation
        let (lo, hi) = (s.t1.saturating_sub(c1), s.t2.saturating_sub(c0));
        if s.after.elapsed_ns < lo || s.after.elapsed_ns > hi {
            o.bad("elapsed", format!("actor {} {}: elapsed() = {} ns, between {} and {} ns have passed", ai, desc(s, i), s.after.elapsed_ns, lo, hi));
        }
        if s.after.since_ns < lo || s.after.since_ns > hi {
            o.bad("time-created", format!("actor {} {}: time_created() is {} ns ago, the instance was created between {} and {} ns ago", ai, desc(s, i), s.after.since_ns, lo, hi));
        }
        o.n("elapsed_checks");
        let reasons = match &s.out {
            Outcome::Go => vec![],
            Outcome::Term(t) => t.reasons.clone(),
            _ => continue,
        };
        let has = reasons.contains(&R::MaxTime);
        let lim = match p.max_time_ns {
            None => {
                if has {
                    o.bad("max-time", format!("actor {} {}: MaxTime without a time limit", ai, desc(s, i)));
                }
                continue;
            }
            Some(l) => l,
        };
        if reasons.contains(&R::InvalidFunctionValue) || reasons.contains(&R::PosDefCov) {
            continue;
        }
        if s.op.is_gen() || s.op.is_run() {
            let ev = &a.evals[s.e0..s.e1];
            let cs = chunks(ev, p.lambda);
            for (k, c) in cs.iter().enumerate() {
                let lastc = k + 1 == cs.len();
                // when was the limit tested for this generation?
                let tlo = c.iter().map(|e| e.t1).max().unwrap_or(s.t0);
                let thi = if lastc { s.t1 } else { cs[k + 1].iter().map(|e| e.t0).min().unwrap() };
                let must = tlo.saturating_sub(c1) >= lim;
                let mustnot = thi.saturating_sub(c0) < lim;
                o.n("max_time_decisions");
                if lastc {
                    if must && !has {
                        o.bad("max-time", format!("actor {} {}: {} ns elapsed, limit {} ns, not reported", ai, desc(s, i), tlo - c1, lim));
                    }
                    if mustnot && has {
                        o.bad("max-time", format!("actor {} {}: MaxTime reported after at most {} ns, limit {} ns", ai, desc(s, i), thi - c0, lim));
                    }
                } else if must {
                    o.bad("max-time", format!("actor {} {}: a generation was started {} ns after creation, limit {} ns", ai, desc(s, i), tlo - c1, lim));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// State update refinement

pub struct Refine {
    n: usize,
    p: Params,
    pub ps: Vec<f64>,
    pub pc: Vec<f64>,
    err_ps: f64,
    /// of the decomposition in use (relative to its largest eigenvalue)
    err_eig: f64,
    pub err_pc: f64,
    d: Vec<f64>,
    b: Vec<f64>,
    last_eig: usize,
    gap: usize,
    pub alive: bool,
    chi: f64,
    // sampling statistics
    pub zn: u64,
    z2: f64,
    zsum: Vec<f64>,
    zlag: f64,
    nlag: u64,
    zabs: f64,
    lastz: Vec<Vec<f64>>,
    zcross: Vec<f64>,
    zadj: f64,
    nadj: u64,
    z4: f64,
    zvar: f64,
    /// whitened lengths of earlier samples (bits) and matches found among later ones
    norms: std::collections::BTreeSet<u64>,
    matches: u64,
    expected_matches: f64,
}

impl Refine {
    pub fn new(p: &Params) -> Self {
        let n = p.dim;
        let nf = n as f64;
        let mut b = vec![0.0; n * n];
        for i in 0..n {
            b[i * n + i] = 1.0;
        }
        let mut p = p.clone();
        if p.weights.len() < p.lambda {
            p.weights.resize(p.lambda, 0.0);
        }
        Refine {
            n,
            gap: (0.5 * nf * p.lambda as f64 / ((p.c1 + p.cmu) * nf * nf)).ceil() as usize,
            p,
            ps: vec![0.0; n],
            pc: vec![0.0; n],
            err_ps: 0.0,
            err_eig: 0.0,
            err_pc: 0.0,
            d: vec![1.0; n],
            b,
            last_eig: 0,
            alive: true,
            chi: nf.sqrt() * (1.0 - 1.0 / (4.0 * nf) + 1.0 / (21.0 * nf * nf)),
            zn: 0,
            z2: 0.0,
            zsum: vec![0.0; n],
            zlag: 0.0,
            nlag: 0,
            zabs: 0.0,
            lastz: vec![],
            zcross: vec![0.0; n * n],
            zadj: 0.0,
            nadj: 0,
            z4: 0.0,
            zvar: 0.0,
            norms: Default::default(),
            matches: 0,
            expected_matches: 0.0,
        }
    }

    fn isqrt_mul(&self, y: &[f64]) -> Vec<f64> {
        let n = self.n;
        let mut t = vec![0.0; n];
        for k in 0..n {
            let c: f64 = (0..n).map(|i| self.b[i * n + k] * y[i]).sum();
            t[k] = c / self.d[k].sqrt();
        }
        (0..n).map(|i| (0..n).map(|k| self.b[i * n + k] * t[k]).sum()).collect()
    }
    fn whiten(&self, y: &[f64]) -> Vec<f64> {
        let n = self.n;
        (0..n)
            .map(|k| (0..n).map(|i| self.b[i * n + k] * y[i]).sum::<f64>() / self.d[k].sqrt())
            .collect()
    }

    /// Checks one completed generation; advances the modelled evolution paths.
    pub fn step(&mut self, bf: &Snap, af: &Snap, ev: &[EvalRec], posdef: bool, sample_stats: bool, stable_order: bool) -> Result<u32, (String, String)> {
        if !self.alive {
            return Ok(0);
        }
        let n = self.n;
        let p = self.p.clone();
        let eps = f64::EPSILON;
        if !(finite(&bf.mean) && bf.sigma.is_finite() && bf.sigma > 0.0 && finite(&bf.cov))
            || ev.iter().any(|e| !finite(&e.x))
            || !(finite(&af.mean) && af.sigma.is_finite() && af.sigma > 0.0 && finite(&af.cov))
            || !self.d.iter().all(|v| *v > 0.0 && v.is_finite())
            || bf.sigma < 1e-250
            || af.sigma < 1e-250
            || af.sigma > 1e250
            || maxabs(&af.cov) > 1e200
            || maxabs(&af.cov) < 1e-200
            // squares of the entries underflow in the eigendecomposition
            || n > 1 && (maxabs(&af.cov) < 1e-120 || self.d.iter().any(|v| *v < 1e-140))
        {
            self.alive = false;
            return Ok(0);
        }
        let sg = bf.sigma;
        let ys: Vec<Vec<f64>> = ev.iter().map(|e| (0..n).map(|i| (e.x[i] - bf.mean[i]) / sg).collect()).collect();
        let xm = ev.iter().fold(maxabs(&bf.mean), |a, e| a.max(maxabs(&e.x)));
        let dmin = self.d.iter().cloned().fold(f64::INFINITY, f64::min);
        let dmax = self.d.iter().cloned().fold(0.0, f64::max);
        let cond = dmax / dmin;
        let ynorm = ys.iter().map(|y| la::norm(y)).fold(0.0, f64::max);
        // error of each recovered y component
        let ey = 6.0 * eps * xm / sg + 6.0 * eps * ynorm;
        let nf = n as f64;

        if sample_stats && ey / dmin.sqrt() < 1e-5 && cond < 1e10 {
            let zs: Vec<Vec<f64>> = ys.iter().map(|y| self.whiten(y)).collect();
            for (k, z) in zs.iter().enumerate() {
                self.zn += 1;
                self.z2 += z.iter().map(|v| v * v).sum::<f64>();
                for i in 0..n {
                    self.zsum[i] += z[i];
                    self.zabs = self.zabs.max(z[i].abs());
                    for j in 0..n {
                        self.zcross[i * n + j] += z[i] * z[j];
                    }
                }
                if let Some(l) = self.lastz.get(k) {
                    self.zlag += z.iter().zip(l).map(|(a, b)| a * b).sum::<f64>();
                    self.nlag += 1;
                }
                if k > 0 {
                    self.zadj += z.iter().zip(&zs[k - 1]).map(|(a, b)| a * b).sum::<f64>();
                    self.nadj += 1;
                }
                self.z4 += z.iter().map(|v| v.powi(4)).sum::<f64>();
                self.zvar += (z.iter().map(|v| v * v).sum::<f64>() - nf).powi(2);
            }
            // two points of a generation never are the same step from the mean, in either direction
            if (n >= 2 && ey / dmin.sqrt() < 1e-8 || ey / dmin.sqrt() < 1e-13) && ys.len() <= 64 {
                for i in 0..ys.len() {
                    for j in 0..i {
                        for sign in [1.0, -1.0] {
                            if (0..n).all(|k| (ys[i][k] - sign * ys[j][k]).abs() <= 2.0 * ey) && la::norm(&ys[i]) > 100.0 * ey {
                                return Err(("sampling".into(), format!("evaluated points {} and {} of the generation are {} step from the mean: the samples are not independent", j, i, if sign > 0.0 { "the same" } else { "the opposite" })));
                            }
                        }
                    }
                }
            }
            // nor does a generation repeat the random numbers of an earlier one
            if n >= 2 && ey / dmin.sqrt() < 1e-9 && cond < 1e4 && self.err_eig * cond < 1e-10 && zs.len() >= 4 {
                let mut found = 0u64;
                let lens: Vec<f64> = zs.iter().map(|z| la::norm(z)).collect();
                for l in &lens {
                    if self.norms.range((l * (1.0 - 1e-8)).to_bits()..=(l * (1.0 + 1e-8)).to_bits()).next().is_some() {
                        found += 1;
                    }
                    self.expected_matches += self.norms.len() as f64 * 2e-8 * l.max(1.0);
                }
                self.matches += found;
                if found >= 4 {
                    return Err(("sampling".into(), format!("{} of {} points of generation {} are steps of exactly the same (whitened) length as steps of earlier generations: random numbers are used again", found, zs.len(), bf.gen)));
                }
                for l in lens {
                    if self.norms.len() < 30_000 {
                        self.norms.insert(l.to_bits());
                    }
                }
            }
            self.lastz = zs;
        }

        // ranking
        let mut ord: Vec<usize> = (0..ev.len()).collect();
        ord.sort_by(|&a, &b| {
            let (x, y) = (ev[a].v, ev[b].v);
            if p.maximize {
                y.partial_cmp(&x).unwrap()
            } else {
                x.partial_cmp(&y).unwrap()
            }
        });
        let mut tie = false;
        for w in 0..ord.len() - 1 {
            if ev[ord[w]].v == ev[ord[w + 1]].v && p.weights[w] != p.weights[w + 1] {
                tie = true;
            }
        }
        let _ = stable_order;
        let wsum: f64 = p.weights.iter().map(|w| w.abs()).sum();
        let (yw, e_yw): (Vec<f64>, f64) = if tie {
            let f = p.cm * sg;
            (
                (0..n).map(|i| (af.mean[i] - bf.mean[i]) / f).collect(),
                8.0 * eps * (maxabs(&af.mean) + maxabs(&bf.mean)) / f + 8.0 * eps * ynorm,
            )
        } else {
            let mut yw = vec![0.0; n];
            for r in 0..p.mu {
                for i in 0..n {
                    yw[i] += p.weights[r] * ys[ord[r]][i];
                }
            }
            let e = ey * wsum.max(1.0) * 2.0;
            // mean
            let tol = 4.0 * (p.cm * sg * e + 8.0 * eps * maxabs(&bf.mean)) + 1e-12 * p.cm * sg * ynorm;
            for i in 0..n {
                let want = bf.mean[i] + p.cm * sg * yw[i];
                if !((af.mean[i] - want).abs() <= tol) {
                    return Err(("mean".into(), format!("mean[{}] = {:e}, weighted recombination gives {:e} (tolerance {:e})", i, af.mean[i], want, tol)));
                }
            }
            (yw, e)
        };
        if tie {
            // the recombined step stays inside the spread of the best points
            if la::norm(&yw) > (ynorm + e_yw * nf) * 1.01 * wsum.max(1.0) {
                return Err(("mean".into(), "the mean moved further than any sampled point".into()));
            }
        }

        // paths
        let zyw = self.isqrt_mul(&yw);
        let kps = (p.cs * (2.0 - p.cs) * p.mu_eff).sqrt();
        let ps: Vec<f64> = (0..n).map(|i| (1.0 - p.cs) * self.ps[i] + kps * zyw[i]).collect();
        let e_z = e_yw * nf.sqrt() / dmin.sqrt() + la::norm(&zyw) * ((3e-13 + 10.0 * self.err_eig) * cond + 1e-13);
        let err_ps = (1.0 - p.cs) * self.err_ps + kps * e_z;
        let psn = la::norm(&ps);
        let lhs = psn / (1.0 - (1.0 - p.cs).powf(2.0 * (bf.gen as f64 + 1.0))).sqrt();
        let rhs = (1.4 + 2.0 / (nf + 1.0)) * self.chi;
        let margin = 1e-9 * rhs + 2.0 * err_ps * lhs / psn.max(1e-300);
        let kpc = (p.cc * (2.0 - p.cc) * p.mu_eff).sqrt();
        let cand: Vec<f64> = if (lhs - rhs).abs() <= margin {
            vec![1.0, 0.0]
        } else if lhs < rhs {
            vec![1.0]
        } else {
            vec![0.0]
        };

        // sigma
        let stol = (p.cs / p.damp_s) * err_ps / self.chi * 2.0 + 1e-11;
        let mut did = 0;
        if stol < 1e-2 {
            let want = sg * ((p.cs / p.damp_s) * (psn / self.chi - 1.0)).exp();
            if !((af.sigma - want).abs() <= stol * want) {
                return Err(("sigma".into(), format!("sigma = {:e}, cumulative step-size adaptation gives {:e} (relative tolerance {:e})", af.sigma, want, stol)));
            }
            did += 1;
        }

        // covariance
        let err_pc_base = (1.0 - p.cc) * self.err_pc;
        let mut best: Option<(f64, Vec<f64>, f64, String)> = None;
        let wc: Vec<f64> = (0..ev.len())
            .map(|r| {
                let w = p.weights[r];
                if w < 0.0 {
                    let z = self.isqrt_mul(&ys[ord[r]]);
                    let m = la::norm(&z);
                    w * nf / (m * m)
                } else {
                    w
                }
            })
            .collect();
        let mut e_mu = 0.0;
        for r in 0..ev.len() {
            let yn = la::norm(&ys[ord[r]]);
            e_mu += wc[r].abs() * yn * (2.0 * ey * nf.sqrt() + 1e-13 * yn);
            if p.weights[r] < 0.0 {
                let zn = la::norm(&self.isqrt_mul(&ys[ord[r]]));
                e_mu += wc[r].abs() * yn * yn * 2.0 * (ey * nf.sqrt() / dmin.sqrt() / zn.max(1e-300) + (1e-13 + 10.0 * self.err_eig) * cond);
            }
        }
        let wtot: f64 = p.weights.iter().sum();
        for &hs in &cand {
            let pc: Vec<f64> = (0..n).map(|i| (1.0 - p.cc) * self.pc[i] + hs * kpc * yw[i]).collect();
            let err_pc = err_pc_base + hs * kpc * e_yw * nf.sqrt() + 1e-14 * la::norm(&pc);
            let dh = (1.0 - hs) * p.cc * (2.0 - p.cc);
            let mut worst: f64 = 0.0;
            let mut msg = String::new();
            if !tie {
                let decay = 1.0 + p.c1 * dh - p.c1 - p.cmu * wtot;
                let cmax = maxabs(&bf.cov);
                let tol = 1e-12 * cmax * (1.0 + decay.abs())
                    + p.c1 * 2.0 * la::norm(&pc) * err_pc
                    + 1e-12 * p.c1 * la::norm(&pc).powi(2)
                    + 4.0 * p.cmu * e_mu;
                if tol > 1e-2 * maxabs(&af.cov) {
                    // too imprecise to judge
                    worst = 0.0;
                } else {
                    for i in 0..n {
                        for j in 0..n {
                            let mut s = 0.0;
                            for r in 0..ev.len() {
                                s += wc[r] * ys[ord[r]][i] * ys[ord[r]][j];
                            }
                            let want = decay * bf.cov[i * n + j] + p.c1 * pc[i] * pc[j] + p.cmu * s;
                            let q = (af.cov[i * n + j] - want).abs() / tol;
                            if !(q <= worst) {
                                worst = if q.is_nan() { f64::INFINITY } else { q };
                                msg = format!("cov[({},{})] = {:e}, the rank-one/rank-mu update gives {:e} (tolerance {:e})", i, j, af.cov[i * n + j], want, tol);
                            }
                        }
                    }
                    did += 1;
                }
            }
            if best.as_ref().map(|b| worst < b.0).unwrap_or(true) {
                best = Some((worst, pc, err_pc, msg));
            }
        }
        let (worst, pc, err_pc, msg) = best.unwrap();
        if worst > 1.0 {
            return Err(("covariance".into(), msg));
        }
        if tie && cand.len() > 1 {
            // cannot tell which path was taken
            self.alive = false;
        }
        self.ps = ps;
        self.pc = pc;
        self.err_ps = err_ps;
        self.err_pc = err_pc;

        // eigendecomposition schedule
        let due = af.fevals >= self.last_eig + self.gap;
        if due && !posdef {
            self.last_eig = af.fevals;
            let (d, b) = la::eig(&af.cov, n);
            let mut m = d.clone();
            let mut l = af.eig.clone();
            m.sort_by(|a, b| a.partial_cmp(b).unwrap());
            l.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
            let top = m[n - 1].abs();
            for k in 0..n {
                if !((m[k] - l[k]).abs() <= 1e-9 * top) {
                    return Err(("eigen".into(), format!("eigenvalue {} is {:e}, the covariance matrix has {:e} (generation {}, decomposition due every {} evaluations)", k, l[k], m[k], af.gen, self.gap)));
                }
            }
            let res = la::dependency_residual(&af.cov, n, &af.eig);
            if res > 1e-9 {
                return Err(("eigen-mispaired".into(), format!("generation {}: nalgebra's SymmetricEigen (eps 1e-20) pairs the eigenvalues {:?} of the covariance matrix with the wrong eigenvectors (relative residual {:e})", af.gen, af.eig, res)));
            }
            self.err_eig = res;
            self.d = d;
            self.b = b;
            did += 1;
        } else if !due && !beq(&bf.eig, &af.eig) {
            return Err(("eigen-schedule".into(), format!("the eigendecomposition changed at generation {} although it is due only every {} evaluations", af.gen, self.gap)));
        }
        if self.err_ps > 1e-2 * self.chi || !finite(&self.ps) || !finite(&self.pc) {
            self.alive = false;
        }
        Ok(did)
    }

    /// Statistics of all whitened samples: they must look like independent N(0, I) draws.
    pub fn sampling(&self) -> Result<bool, String> {
        let n = self.n as f64;
        let m = self.zn as f64;
        if self.zn < 60 {
            return Ok(false);
        }
        let k = m * n;
        if self.zabs > 9.5 {
            return Err(format!("a whitened sample component of size {}", self.zabs));
        }
        let t = (self.z2 - k) / (2.0 * k).sqrt();
        // chi-square with k degrees of freedom; 9 sigma, skewness allowed for by the extra term
        if t.abs() > 9.0 + 40.0 / k.sqrt() {
            return Err(format!("sum of squares of {} whitened components is {:.4e} ({:.1} standard deviations off)", k, self.z2, t));
        }
        for (i, s) in self.zsum.iter().enumerate() {
            let t = s / m.sqrt();
            if t.abs() > 9.0 {
                return Err(format!("whitened component {} has mean {:.3} over {} samples", i, s / m, m));
            }
        }
        let nn = self.n;
        for i in 0..nn {
            for j in 0..i {
                let t = self.zcross[i * nn + j] / m.sqrt();
                if t.abs() > 10.0 + 40.0 / m.sqrt() {
                    return Err(format!("whitened components {} and {} are correlated: {:.3}", i, j, self.zcross[i * nn + j] / m));
                }
            }
        }
        if self.nlag > 60 {
            let t = self.zlag / (self.nlag as f64 * n).sqrt();
            if t.abs() > 10.0 {
                return Err(format!("samples of consecutive generations are correlated ({:.1} standard deviations)", t));
            }
        }
        if self.nadj > 60 {
            let t = self.zadj / (self.nadj as f64 * n).sqrt();
            if t.abs() > 10.0 + 40.0 / (self.nadj as f64).sqrt() {
                return Err(format!("samples of the same generation are correlated ({:.1} standard deviations)", t));
            }
        }
        if self.matches as f64 > 20.0 + 10.0 * self.expected_matches {
            return Err(format!("{} steps have exactly the same (whitened) length as earlier ones, {:.3} expected", self.matches, self.expected_matches));
        }
        if k > 2000.0 {
            let t = (self.z4 - 3.0 * k) / (96.0 * k).sqrt();
            if t > 15.0 || t < -9.0 {
                return Err(format!("the fourth moment of {} whitened components is {:.4} ({:.1} standard deviations off)", k, self.z4 / k, t));
            }
        }
        if m > 1000.0 {
            let t = (self.zvar - 2.0 * n * m) / ((8.0 * n * n + 48.0 * n) * m).sqrt();
            if t > 15.0 || t < -9.0 {
                return Err(format!("the variance of the squared length of {} whitened samples is {:.4}, not {} ({:.1} standard deviations off)", m, self.zvar / m, 2.0 * n, t));
            }
        }
        Ok(true)
    }
}

// ---------------------------------------------------------------------------------------------
// Termination

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri {
    Must,
    Not,
    Maybe,
}
fn tri(must: bool, not: bool) -> Tri {
    match (must, not) {
        (true, false) => Tri::Must,
        (false, true) => Tri::Not,
        _ => Tri::Maybe,
    }
}

#[derive(Default)]
pub struct Track {
    /// most recent last
    pub best: Vec<f64>,
    pub med: Vec<f64>,
    pub first_med: Option<f64>,
    pub best_med: Option<f64>,
}

fn median_sorted(v: &[f64]) -> f64 {
    let n = v.len();
    if n % 2 == 0 {
        (v[n / 2 - 1] + v[n / 2]) / 2.0
    } else {
        v[n / 2]
    }
}
fn median(v: &[f64]) -> f64 {
    let mut w = v.to_vec();
    let n = w.len();
    let cmp = |a: &f64, b: &f64| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal);
    let hi = *w.select_nth_unstable_by(n / 2, cmp).1;
    if n % 2 == 1 {
        hi
    } else {
        let lo = w[..n / 2].iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        (lo + hi) / 2.0
    }
}

impl Track {
    pub fn push(&mut self, ev: &[EvalRec], maximize: bool) {
        let mut v: Vec<f64> = ev.iter().map(|e| e.v).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let m = median_sorted(&v);
        self.best.push(if maximize { v[v.len() - 1] } else { v[0] });
        self.med.push(m);
        if self.first_med.is_none() {
            self.first_med = Some(m);
        }
        self.best_med = Some(match self.best_med {
            None => m,
            Some(b) => {
                if better(maximize, m, b) || b.is_nan() {
                    m
                } else {
                    b
                }
            }
        });
    }
}

fn range(v: &[f64]) -> f64 {
    let lo = v.iter().cloned().fold(f64::INFINITY, f64::min);
    let hi = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    hi - lo
}

pub struct TermCtx<'a> {
    pub p: &'a Params,
    pub track: &'a Track,
    pub refine: Option<&'a Refine>,
    axes: Option<&'a [Tri]>,
    pub stagnation: bool,
}

pub fn expect(c: &TermCtx, s: &Step, ev: &[EvalRec], bf: &Snap, a: &ActorHist) -> Vec<(R, Tri)> {
    let p = c.p;
    let af = &s.after;
    let mut r = vec![];
    let n = p.dim;
    r.push((R::MaxFunctionEvals, p.max_evals.map_or(Tri::Not, |m| tri(af.fevals >= m, af.fevals < m))));
    r.push((R::MaxGenerations, p.max_gens.map_or(Tri::Not, |m| tri(af.gen >= m, af.gen < m))));
    r.push((R::MaxTime, match p.max_time_ns {
        None => Tri::Not,
        Some(l) => {
            let tlo = ev.iter().map(|e| e.t1).max().unwrap_or(s.t0);
            tri(tlo.saturating_sub(a.t_create1) >= l, s.t1.saturating_sub(a.t_create0) < l)
        }
    }));
    r.push((R::FunTarget, match p.fun_target {
        None => Tri::Not,
        Some(t) => {
            let hit = ev.iter().any(|e| better(p.maximize, e.v, t));
            let eq = ev.iter().any(|e| e.v == t);
            tri(hit, !hit && !eq)
        }
    }));
    // TolFun*
    let g = 10 + (30.0 * n as f64 / p.lambda as f64).ceil() as usize;
    let t = c.track;
    if t.best.len() < g {
        for k in [R::TolFun, R::TolFunHist, R::TolFunRel] {
            r.push((k, Tri::Not));
        }
    } else {
        let win = &t.best[t.best.len() - g..];
        let vals: Vec<f64> = ev.iter().map(|e| e.v).collect();
        let fin = finite(win) && finite(&vals);
        let (rh, rc) = (range(win), range(&vals));
        let lt = |x: f64, tol: f64| tri(x < tol * (1.0 - 1e-9), x > tol * (1.0 + 1e-9) || (tol == 0.0 && x >= 0.0));
        let and = |x: Tri, y: Tri| match (x, y) {
            (Tri::Must, Tri::Must) => Tri::Must,
            (Tri::Not, _) | (_, Tri::Not) => Tri::Not,
            _ => Tri::Maybe,
        };
        if fin && rh.is_finite() && rc.is_finite() {
            r.push((R::TolFunHist, lt(rh, p.tol_fun_hist)));
            r.push((R::TolFun, and(lt(rh, p.tol_fun), lt(rc, p.tol_fun))));
            let fm = t.first_med.unwrap();
            let bm = t.best_med.unwrap();
            let d = (fm - bm).abs();
            let rel = p.tol_fun_rel * d;
            if !rel.is_finite() {
                r.push((R::TolFunRel, Tri::Maybe));
            } else {
                let slack = p.tol_fun_rel * 1e-12 * (fm.abs() + bm.abs());
                let lt2 = |x: f64| tri(x < rel - slack - 1e-9 * rel, x > rel + slack + 1e-9 * rel || (rel == 0.0 && slack == 0.0 && x >= 0.0));
                r.push((R::TolFunRel, and(lt2(rh), lt2(rc))));
            }
        } else {
            for k in [R::TolFun, R::TolFunHist, R::TolFunRel] {
                r.push((k, Tri::Maybe));
            }
        }
    }
    // TolX
    let sg = af.sigma;
    let sd: Vec<f64> = (0..n).map(|i| sg * af.cov[i * n + i].sqrt()).collect();
    {
        let hi = |x: f64| x > p.tol_x * (1.0 + 1e-9);
        let lo = |x: f64| x < p.tol_x * (1.0 - 1e-9);
        let mut must = sd.iter().all(|x| lo(*x));
        let mut not = sd.iter().any(|x| hi(*x));
        match c.refine {
            Some(rf) if rf.alive => {
                let e = rf.err_pc + 1e-12 * la::norm(&rf.pc);
                must &= rf.pc.iter().all(|x| lo(sg * (x.abs() + e)));
                not |= rf.pc.iter().any(|x| hi(sg * (x.abs() - e)));
            }
            _ => must = false,
        }
        if !finite(&sd) {
            must = false;
            not = false;
        }
        r.push((R::TolX, tri(must, not)));
    }
    // condition
    let emax = af.eig.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let emin = af.eig.iter().cloned().fold(f64::INFINITY, f64::min);
    let cond = emax / emin;
    let abnormal = !cond.is_normal();
    r.push((R::TolConditionCov, tri(
        (abnormal && !cond.is_finite() && finite(&af.eig)) || cond > p.tol_condition_cov * (1.0 + 1e-9),
        // in one dimension the ratio is exact
        !abnormal && (cond < p.tol_condition_cov * (1.0 - 1e-9) || n == 1 && cond <= p.tol_condition_cov),
    )));
    // no effect
    {
        let hi = 0.1 * sg * emax.sqrt();
        let lo = 0.1 * sg * emin.sqrt() / (n as f64).sqrt();
        let must = af.mean.iter().all(|m| hi < 0.2 * ulp(*m) * 0.5);
        let mut not = af.mean.iter().all(|m| lo > 2.0 * ulp(*m));
        let mut must = must;
        if let Some(ax) = c.axes {
            not |= ax.iter().all(|x| *x == Tri::Not);
            must |= ax.iter().all(|x| *x == Tri::Must);
        }
        r.push((R::NoEffectAxis, if finite(&af.mean) && finite(&af.eig) { tri(must, not) } else { Tri::Maybe }));
        let must = (0..n).any(|i| 0.2 * sd[i] < 0.2 * ulp(af.mean[i]));
        let not = (0..n).all(|i| 0.2 * sd[i] > 1.01 * ulp(af.mean[i]));
        let doc = if finite(&af.mean) && finite(&sd) { tri(must, not) } else { Tri::Maybe };
        r.push((R::NoEffectCoord, doc));
    }
    // TolXUp
    {
        let q = sg * emax.sqrt() / p.sigma0;
        // a distribution that has overflowed exceeds any limit
        let over = !finite(&af.mean) || !sg.is_finite();
        let edge = sg * emax.sqrt() > 1e307;
        r.push((R::TolXUp, tri(over || q > p.tol_x_up * (1.0 + 1e-9), !over && !edge && q < p.tol_x_up * (1.0 - 1e-9))));
    }
    // TolStagnation
    r.push((R::TolStagnation, if c.stagnation { stagnation(p, t, af.gen) } else { Tri::Maybe }));
    let _ = bf;
    r
}

/// NoEffectCoord as the existing tests pin it down: with the variance in place of the standard
/// deviation.
fn coord_variance(s: &Snap) -> Tri {
    let n = s.mean.len();
    let v: Vec<f64> = (0..n).map(|i| 0.2 * s.sigma * s.cov[i * n + i]).collect();
    if !finite(&v) || !finite(&s.mean) {
        return Tri::Maybe;
    }
    tri((0..n).any(|i| v[i].abs() < 0.2 * ulp(s.mean[i])), (0..n).all(|i| v[i].abs() > 1.01 * ulp(s.mean[i])))
}

fn stagnation(p: &Params, t: &Track, gen: usize) -> Tri {
    let g = (gen / 5).min(20_000);
    if g < p.tol_stagnation || t.best.len() < g {
        return Tri::Not;
    }
    let sub = (g as f64 * 0.3) as usize;
    if sub == 0 {
        return Tri::Maybe;
    }
    let mut res = vec![];
    for h in [&t.best, &t.med] {
        let w = &h[h.len() - g..];
        let recent = &w[w.len() - sub..];
        let old = &w[..sub];
        if !finite(recent) || !finite(old) {
            return Tri::Maybe;
        }
        let (r, o) = (median(recent), median(old));
        let tol = 1e-12 * (r.abs() + o.abs());
        // regressed: old is better than recent
        let d = if p.maximize { o - r } else { r - o };
        if !d.is_finite() {
            return Tri::Maybe;
        }
        res.push(tri(d > tol, d < -tol));
    }
    match (res[0], res[1]) {
        (Tri::Must, Tri::Must) => Tri::Must,
        (Tri::Not, _) | (_, Tri::Not) => Tri::Not,
        _ => Tri::Maybe,
    }
}

#[derive(Clone, Copy)]
pub struct What2 {
    pub term: bool,
    pub refine: bool,
    pub sampling: bool,
    pub inv: bool,
}

/// Walks the instance's history with the reference model.
pub fn model(ai: usize, a: &ActorHist, what: What2, constrained: bool, o: &mut Out) {
    let p = match (&a.params, &a.initial) {
        (Some(p), Some(_)) => p,
        _ => return,
    };
    let mut rf = Refine::new(p);
    let mut tr = Track::default();
    let mut lost = Lost::new(p.dim);
    let nsteps = a.steps.len();
    for (i, s) in a.steps.iter().enumerate() {
        let bf = prev(a, i);
        if matches!(s.out, Outcome::LibPanic(_)) {
            return;
        }
        if s.op.is_run() {
            for c in chunks(&a.evals[s.e0..s.e1], p.lambda) {
                tr.push(c, p.maximize);
            }
            rf.alive = false;
            lost.refresh(bf, &s.after);
            if what.term {
                if let Outcome::Term(t) = &s.out {
                    reasons_shape(ai, s, i, t, o);
                    // the reasons of run() hold at its last generation
                    if let Some(c) = chunks(&a.evals[s.e0..s.e1], p.lambda).last() {
                        if !t.reasons.contains(&R::InvalidFunctionValue) && !t.reasons.contains(&R::PosDefCov) {
                            let cx = TermCtx { p, track: &tr, refine: None, axes: None, stagnation: true };
                            compare(ai, s, i, &t.reasons, &expect(&cx, s, c, bf, a), o);
                        }
                    }
                }
            }
            continue;
        }
        if !s.op.is_gen() {
            if let Some(f) = bf.diff(&s.after) {
                o.bad("observer", format!("actor {} {}: {} changed", ai, desc(s, i), f));
            }
            continue;
        }
        let ev = &a.evals[s.e0..s.e1];
        let full = ev.len() == p.lambda && ev.iter().all(|e| e.done && !e.v.is_nan() && !e.panicked);
        let reasons = match &s.out {
            Outcome::Go => vec![],
            Outcome::Term(t) => {
                if what.term {
                    reasons_shape(ai, s, i, t, o);
                }
                t.reasons.clone()
            }
            _ => continue,
        };
        if !full {
            continue;
        }
        let posdef = reasons.contains(&R::PosDefCov);
        tr.push(ev, p.maximize);
        let seq = s.op == OpK::Next;
        let r = rf.step(bf, &s.after, ev, posdef, what.sampling && !constrained, seq);
        match r {
            Ok(k) => o.add("refinement_checks", k as u64),
            Err((c, m)) => {
                if std::env::var("DST_DEBUG").is_ok() {
                    eprintln!("{} {}\nd {:?}\nb {:?}\neig {:?}\nbefore cov {:?}\ngap {} last {}", c, m, rf.d, rf.b, bf.eig, bf.cov, rf.gap, rf.last_eig);
                }
                if what.refine {
                    o.bad(&c, format!("actor {} {}: {}", ai, desc(s, i), m));
                }
                rf.alive = false;
            }
        }
        if what.inv {
            invariants(ai, s, i, bf, p, reasons.is_empty(), o);
        }
        if what.term {
            if posdef {
                let (d, _) = la::eig(&s.after.cov, p.dim);
                let top = d.iter().fold(0.0f64, |m, v| m.max(v.abs()));
                // (the decomposition squares entries: nothing can be said about matrices where that underflows)
                if finite(&s.after.cov) && top > 1e-140 && d.iter().all(|v| *v > 1e-9 * top) {
                    o.bad("pos-def", format!("actor {} {}: PosDefCov for the positive definite matrix {:?}", ai, desc(s, i), s.after.cov));
                }
                o.n("posdef_terminations");
            } else {
                let stag = i < 3000 || i % 257 == 0 || i + 50 > nsteps || reasons.contains(&R::TolStagnation);
                lost.refresh(bf, &s.after);
                let ax = lost.axes(&s.after);
                let cx = TermCtx { p, track: &tr, refine: Some(&rf), axes: Some(&ax), stagnation: stag };
                compare(ai, s, i, &reasons, &expect(&cx, s, ev, bf, a), o);
                if let Some(m) = lost.unreported(&ax, &reasons, o) {
                    o.bad("missing-NoEffectAxis", format!("actor {} {} (generation {}): {}", ai, desc(s, i), s.after.gen, m));
                }
            }
        }
        if o.v.len() >= 10 {
            return;
        }
    }
    // a generation thrown away because of where a point fell is a selection among the samples
    let (thrown, kept) = gens(a).iter().fold((0, 0), |(t, k), g| if g.full { (t, k + 1) } else { (t + 1, k) });
    let selected = thrown * 50 > kept;
    if selected {
        o.n("sampling_not_judged_selection");
    }
    if what.sampling && !constrained && !selected {
        match rf.sampling() {
            Ok(true) => o.n("sampling_distribution_tests"),
            Ok(false) => {}
            Err(m) => o.bad("sampling", format!("actor {}: {}", ai, m)),
        }
    }
}

/// The decomposition in use, as far as the recorded history shows it, and for how many generations
/// each axis has been without effect and unreported.
struct Lost {
    cov: Vec<f64>,
    /// of `cov`, once it is needed: eigenvalues, axes, relative error
    dec: Option<(Vec<f64>, Vec<f64>, f64)>,
    b: Vec<f64>,
    count: Vec<usize>,
}

impl Lost {
    fn new(n: usize) -> Self {
        let mut cov = vec![0.0; n * n];
        (0..n).for_each(|i| cov[i * n + i] = 1.0);
        Lost { cov, dec: None, b: vec![], count: vec![] }
    }
    fn refresh(&mut self, bf: &Snap, af: &Snap) {
        if !beq(&bf.eig, &af.eig) {
            self.cov = af.cov.clone();
            self.dec = None;
        }
    }
    /// For each principal axis: whether a tenth of its standard deviation can change the mean.
    /// Must = it cannot, Not = it can.
    fn axes(&mut self, af: &Snap) -> Vec<Tri> {
        let n = af.mean.len();
        if !(finite(&af.mean) && af.sigma.is_finite() && finite(&self.cov) && finite(&af.eig)) {
            return vec![Tri::Maybe; n];
        }
        // far from it, or all of them
        let emax = af.eig.iter().cloned().fold(0.0, f64::max);
        let emin = af.eig.iter().cloned().fold(f64::INFINITY, f64::min);
        let s = 0.1 * af.sigma;
        if emin > 0.0 && af.mean.iter().all(|m| s * (emin / n as f64).sqrt() > 2.0 * ulp(*m)) {
            return vec![Tri::Not; n];
        }
        if s * emax.sqrt() == 0.0 {
            return vec![Tri::Maybe; n];
        }
        if self.dec.is_none() {
            let (d, b) = la::eig(&self.cov, n);
            let top = d.iter().cloned().fold(0.0, f64::max);
            let (mut x, mut y) = (d.clone(), af.eig.clone());
            x.sort_by(|a, b| a.partial_cmp(b).unwrap());
            y.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut e = x.iter().zip(&y).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max) / top;
            // nalgebra mispairs values and axes now and then
            e = e.max(la::dependency_residual(&self.cov, n, &af.eig));
            if !(d.iter().all(|v| *v > 0.0)) {
                e = 1.0;
            }
            self.dec = Some((d, b, e));
        }
        let (d, b, e) = self.dec.as_ref().unwrap();
        let top = d.iter().cloned().fold(0.0, f64::max);
        (0..n)
            .map(|k| {
                if *e > 1e-6 {
                    return Tri::Maybe;
                }
                let gap = (0..n).filter(|j| *j != k).map(|j| (d[j] - d[k]).abs()).fold(f64::INFINITY, f64::min);
                let eb = ((1e-12 + e) * top / gap).max(1e-10).min(2.0);
                let rel = 1e-9 + ((1e-13 + e) * top / d[k]);
                let x = |i: usize| s * d[k].sqrt() * b[i * n + k].abs();
                let slack = s * d[k].sqrt() * eb;
                let lost = (0..n).all(|i| (x(i) + slack) * (1.0 + rel) < 0.24 * ulp(af.mean[i]));
                let felt = rel < 0.5 && (0..n).any(|i| (x(i) - slack) * (1.0 - rel) > 0.51 * ulp(af.mean[i]));
                tri(lost, felt)
            })
            .collect()
    }

    /// The axes are checked in turns, so none of them stays unreported for long.
    fn unreported(&mut self, ax: &[Tri], reasons: &[R], o: &mut Out) -> Option<String> {
        let n = ax.len();
        if reasons.contains(&R::NoEffectAxis) || !ax.contains(&Tri::Must) {
            self.count.clear();
            return None;
        }
        let b = match &self.dec {
            Some((_, b, _)) => b.clone(),
            None => return None,
        };
        let old = if self.count.len() == n { self.count.clone() } else { vec![0; n] };
        let oldb = if self.b.len() == n * n { self.b.clone() } else { b.clone() };
        let same = |k: usize, j: usize| (0..n).map(|i| b[i * n + k] * oldb[i * n + j]).sum::<f64>().abs() > 0.9;
        self.count = (0..n)
            .map(|k| match ax[k] {
                Tri::Must => 1 + (0..n).find(|j| same(k, *j)).map_or(0, |j| old[j]),
                _ => 0,
            })
            .collect();
        self.b = b;
        o.n("lost_axis_checks");
        if self.count.iter().all(|c| *c <= 10 * n + 20) {
            return None;
        }
        self.count.clear();
        Some(format!("a principal axis has had no effect on the mean for more than {} generations without NoEffectAxis being reported", 10 * n + 20))
    }
}

fn reasons_shape(ai: usize, s: &Step, i: usize, t: &Term, o: &mut Out) {
    if t.reasons.is_empty() {
        o.bad("reasons", format!("actor {} {}: terminated without a reason", ai, desc(s, i)));
    }
    let mut r = t.reasons.clone();
    r.sort();
    r.dedup();
    if r.len() != t.reasons.len() {
        o.bad("reasons", format!("actor {} {}: a reason is reported twice: {:?}", ai, desc(s, i), t.reasons));
    }
    for x in [R::InvalidFunctionValue, R::PosDefCov] {
        if t.reasons.contains(&x) && t.reasons.len() != 1 {
            o.bad("reasons", format!("actor {} {}: {:?} reported together with others: {:?}", ai, desc(s, i), x, t.reasons));
        }
    }
}

fn rname(r: R) -> &'static str {
    match r {
        R::MaxFunctionEvals => "reason_MaxFunctionEvals",
        R::MaxGenerations => "reason_MaxGenerations",
        R::MaxTime => "reason_MaxTime",
        R::FunTarget => "reason_FunTarget",
        R::TolFun => "reason_TolFun",
        R::TolFunRel => "reason_TolFunRel",
        R::TolFunHist => "reason_TolFunHist",
        R::TolX => "reason_TolX",
        R::TolStagnation => "reason_TolStagnation",
        R::TolXUp => "reason_TolXUp",
        R::NoEffectAxis => "reason_NoEffectAxis",
        R::NoEffectCoord => "reason_NoEffectCoord",
        R::TolConditionCov => "reason_TolConditionCov",
        R::InvalidFunctionValue => "reason_InvalidFunctionValue",
        R::PosDefCov => "reason_PosDefCov",
    }
}

fn compare(ai: usize, s: &Step, i: usize, got: &[R], want: &[(R, Tri)], o: &mut Out) {
    // entries so small that they have lost their precision
    let vanishing = s.after.cov.iter().fold(0.0f64, |m, v| m.max(v.abs())) < 1e-290;
    for (r, t) in want {
        let has = got.contains(r);
        if vanishing && matches!(r, R::TolX | R::TolXUp | R::NoEffectAxis | R::NoEffectCoord | R::TolConditionCov) {
            o.n("termination_undecided");
            continue;
        }
        if has {
            o.n(rname(*r));
        }
        let wrong = matches!((t, has), (Tri::Must, false) | (Tri::Not, true));
        if *r == R::NoEffectCoord && wrong && !matches!((coord_variance(&s.after), has), (Tri::Must, false) | (Tri::Not, true)) {
            o.bad("NoEffectCoord-variance", format!("actor {} {} (generation {}): NoEffectCoord is {}reported, decided on 0.2*sigma*variance instead of the standard deviation", ai, desc(s, i), s.after.gen, if has { "" } else { "not " }));
            continue;
        }
        match (t, has) {
            (Tri::Must, false) => o.bad(&format!("missing-{:?}", r), format!("actor {} {} (generation {}): {:?} holds but is not reported (reported: {:?})", ai, desc(s, i), s.after.gen, r, got)),
            (Tri::Not, true) => o.bad(&format!("spurious-{:?}", r), format!("actor {} {} (generation {}): {:?} is reported but does not hold", ai, desc(s, i), s.after.gen, r)),
            (Tri::Maybe, _) => o.n("termination_undecided"),
            _ => o.n("termination_decisions"),
        }
    }
}

pub fn invariants(ai: usize, s: &Step, i: usize, bf: &Snap, p: &Params, go: bool, o: &mut Out) {
    let n = p.dim;
    let af = &s.after;
    if !go {
        return;
    }
    if !finite(&bf.mean) || !bf.sigma.is_finite() || !finite(&bf.cov) {
        // the breakdown was reported (or flagged) before, and the caller went on all the same
        o.n("invariants_after_breakdown");
        return;
    }
    o.n("invariant_checks");
    let mut bad = |c: &str, m: String| o.bad(c, format!("actor {} {} (generation {}): {}", ai, desc(s, i), af.gen, m));
    if !finite(&af.mean) {
        bad("mean", format!("mean is not finite: {:?}", af.mean));
    }
    if !(af.sigma > 0.0 && af.sigma.is_finite()) {
        bad("sigma", format!("sigma = {:e}", af.sigma));
    }
    if !finite(&af.cov) {
        bad("covariance", "covariance matrix is not finite".into());
        return;
    }
    for r in 0..n {
        for c in 0..r {
            if af.cov[r * n + c] != af.cov[c * n + r] {
                bad("symmetry", format!("cov[({},{})] != cov[({},{})]", r, c, c, r));
            }
        }
        // (between two decompositions the matrix may be indefinite for a while; afterwards only
        // up to rounding)
        let cmax = maxabs(&af.cov);
        if !(af.cov[r * n + r] > -1e-12 * cmax) && !beq(&bf.eig, &af.eig) {
            bad("diagonal", format!("cov[({},{})] = {:e}", r, r, af.cov[r * n + r]));
        }
    }
    if !af.eig.iter().all(|v| *v > 0.0 && v.is_finite()) {
        bad("eigenvalues", format!("eigenvalues {:?}", af.eig));
    }
    let emax = af.eig.iter().cloned().fold(0.0, f64::max);
    let emin = af.eig.iter().cloned().fold(f64::INFINITY, f64::min);
    let ar = (emax / emin).sqrt();
    if !((af.axis_ratio - ar).abs() <= 1e-9 * ar) || !(af.axis_ratio >= 1.0 - 1e-12) {
        bad("axis-ratio", format!("axis ratio {:e}, eigenvalues give {:e}", af.axis_ratio, ar));
    }
    if !beq(&bf.eig, &af.eig) {
        // fresh decomposition: it belongs to this covariance matrix
        let (mut d, _) = la::eig(&af.cov, n);
        let mut l = af.eig.clone();
        d.sort_by(|a, b| a.partial_cmp(b).unwrap());
        l.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if !d.iter().zip(&l).all(|(a, b)| (a - b).abs() <= 1e-9 * emax.abs()) {
            bad("eigenvalues", format!("eigenvalues {:?} do not belong to the covariance matrix ({:?})", l, d));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Constraints

pub fn constraints(ai: usize, a: &ActorHist, cfg: &Cfg, o: &mut Out) {
    let p = match &a.params {
        Some(p) => p,
        None => return,
    };
    let con = match &cfg.con {
        Some(c) => c,
        None => {
            if !a.cons.is_empty() {
                o.bad("constraint", format!("actor {}: a constraint was consulted without one being set", ai));
            }
            return;
        }
    };
    let max = cfg.max_resamples.unwrap_or(Some(10));
    if let Con::Bounds { lo, hi } = con {
        let inside = |x: &[f64]| (0..x.len()).all(|i| x[i] >= lo[i].0 && x[i] <= hi[i].0);
        if max.map_or(true, |m| m == usize::MAX) {
            for (k, e) in a.evals.iter().enumerate() {
                o.n("bounded_evaluations");
                if !inside(&e.x) {
                    o.bad("infeasible", format!("actor {}: evaluation {} is outside the bounds although resampling is unlimited", ai, k));
                }
            }
        }
        return;
    }
    for (i, s) in a.steps.iter().enumerate() {
        if !s.op.is_gen() {
            if !s.op.is_run() && s.c1 != s.c0 {
                o.bad("constraint", format!("actor {} {}: constraints consulted", ai, desc(s, i)));
            }
            continue;
        }
        if matches!(s.out, Outcome::LibPanic(_)) {
            return;
        }
        let cons = &a.cons[s.c0..s.c1];
        let ev = &a.evals[s.e0..s.e1];
        // replay the rounds
        let mut pos = 0;
        let mut accepted: Vec<&ConRec> = vec![];
        let mut round = 0;
        let mut uncon = 0;
        let mut short = false;
        loop {
            let remain = p.lambda - accepted.len();
            if remain == 0 {
                break;
            }
            if let Some(m) = max {
                if round >= m {
                    uncon = remain;
                    break;
                }
            }
            if pos + remain > cons.len() {
                short = true;
                break;
            }
            for c in &cons[pos..pos + remain] {
                if c.ok {
                    accepted.push(c);
                }
            }
            pos += remain;
            round += 1;
        }
        o.n("constrained_generations");
        if round > 1 {
            o.add("resample_rounds", round as u64 - 1);
        }
        if uncon > 0 {
            o.n("resample_limit_hits");
        }
        if short {
            o.bad("rounds", format!("actor {} {}: only {} candidates were checked; {} accepted after {} rounds, limit {:?}", ai, desc(s, i), cons.len(), accepted.len(), round, max));
            continue;
        }
        if pos != cons.len() {
            o.bad("rounds", format!("actor {} {}: {} candidates were checked, {} expected ({} rounds, limit {:?})", ai, desc(s, i), cons.len(), pos, round, max));
            continue;
        }
        let pan = ev.iter().any(|e| e.panicked);
        let nan = ev.iter().any(|e| e.done && e.v.is_nan());
        let key = |x: &[f64]| x.iter().map(|v| v.to_bits()).collect::<Vec<u64>>();
        let mut acc: Vec<Vec<u64>> = accepted.iter().map(|c| key(&c.x)).collect();
        acc.sort();
        let mut rej: Vec<Vec<u64>> = cons.iter().filter(|c| !c.ok).map(|c| key(&c.x)).collect();
        rej.sort();
        let mut unknown = 0;
        let mut used = 0;
        let mut taken = vec![false; acc.len()];
        for e in ev {
            let k = key(&e.x);
            if uncon == 0 && rej.binary_search(&k).is_ok() && acc.binary_search(&k).is_err() {
                o.bad("rejected", format!("actor {} {}: a rejected candidate was evaluated", ai, desc(s, i)));
            }
            // each accepted candidate stands for one evaluation: unchecked candidates may coincide
            // with accepted ones once the distribution has collapsed
            let lo = acc.partition_point(|q| *q < k);
            let hi = acc.partition_point(|q| *q <= k);
            match (lo..hi).find(|&q| !taken[q]) {
                Some(q) => {
                    taken[q] = true;
                    used += 1
                }
                None => unknown += 1,
            }
        }
        if unknown > uncon {
            o.bad("unchecked", format!("actor {} {}: {} evaluated points were never accepted by the constraint ({} allowed, limit {:?})", ai, desc(s, i), unknown, uncon, max));
        }
        if !pan && !nan && used != accepted.len() {
            o.bad("dropped", format!("actor {} {}: {} candidates were accepted but {} of them evaluated", ai, desc(s, i), accepted.len(), used));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Ownership

pub fn ownership(ai: usize, a: &ActorHist, kind: &Kind, o: &mut Out) {
    o.n("ownership_checks");
    if a.obj_created != a.obj_dropped {
        o.bad("drop", format!("actor {}: {} objective functions were created and {} dropped", ai, a.obj_created, a.obj_dropped));
    }
    if a.obj_double_drop || a.eval_after_drop {
        o.bad("drop", format!("actor {}: objective used after it was dropped, or dropped twice", ai));
    }
    if a.overlap_seq {
        o.bad("overlap", format!("actor {}: sequential evaluation overlapped another evaluation of the same objective", ai));
    }
    match kind {
        Kind::Cmaes { ops, .. } => {
            if a.obj_created > 1 {
                o.bad("factory", format!("actor {}: objective duplicated", ai));
            }
            if ops.contains(&Op::IntoObjective) {
                if let Some(l) = a.live_before_into {
                    if l != 1 {
                        o.bad("drop", format!("actor {}: objective dropped before into_objective_function", ai));
                    }
                }
                if let Some(c) = a.returned_calls {
                    if c != a.evals.len() as u64 {
                        o.bad("into", format!("actor {}: the returned objective has seen {} calls of {}", ai, c, a.evals.len()));
                    }
                }
            }
        }
        Kind::Restart { r, .. } => {
            let reuse = matches!(r.api, RApi::Reuse | RApi::ReusePar);
            if let Some(res) = &a.rres {
                let want = if reuse { 1 } else { res.runs };
                if a.runs.len() != want {
                    o.bad("factory", format!("actor {}: {} runs called the objective factory {} times", ai, res.runs, a.runs.len()));
                }
            }
            // an objective is only used during its own run
            if !reuse {
                for w in a.evals.windows(2) {
                    if w[1].obj < w[0].obj {
                        o.bad("factory", format!("actor {}: the objective of an earlier run was used again", ai));
                        break;
                    }
                }
                for (k, r) in a.runs.iter().enumerate() {
                    let end = a.runs.get(k + 1).map(|r| r.e0).unwrap_or(a.evals.len());
                    if a.evals[r.e0..end].iter().any(|e| e.obj as usize != k) {
                        o.bad("factory", format!("actor {}: run {} used an objective that its factory call did not create", ai, k));
                    }
                }
            }
        }
        Kind::Func { .. } => {}
    }
}

// ---------------------------------------------------------------------------------------------
// Progress

/// Every call came back, limits stop a run in time, and an instance can be stepped on after it.
pub fn progress(ai: usize, a: &ActorHist, cfg: &Cfg, ops: &[Op], o: &mut Out) {
    let p = match &a.params {
        Some(p) => p,
        None => return,
    };
    let _ = ops;
    for (i, s) in a.steps.iter().enumerate() {
        let b = prev(a, i);
        if s.op.is_run() {
            o.n("run_calls_bounded");
            let calls = s.e1 - s.e0;
            let left = match (cfg.max_evals, cfg.max_gens) {
                (Some(e), Some(g)) => Some(e.saturating_sub(b.fevals).min(g.saturating_sub(b.gen).saturating_mul(p.lambda))),
                (Some(e), None) => Some(e.saturating_sub(b.fevals)),
                (None, Some(g)) => Some(g.saturating_sub(b.gen).saturating_mul(p.lambda)),
                (None, None) => None,
            };
            if let Some(l) = left {
                // at least one generation is always made
                if calls >= l.max(1).saturating_add(p.lambda) {
                    o.bad("overrun", format!("actor {} {}: {} evaluations although the limits left room for {} (lambda {})", ai, desc(s, i), calls, l, p.lambda));
                }
            }
            if let Some(l) = p.max_time_ns {
                let cs: Vec<&[EvalRec]> = a.evals[s.e0..s.e1].chunks(p.lambda).collect();
                for (k, c) in cs.iter().enumerate() {
                    let end = c.iter().map(|e| e.t1).max().unwrap_or(0);
                    if k + 1 < cs.len() && end.saturating_sub(a.t_create1) >= l {
                        o.bad("overrun", format!(
                            "actor {} {}: {} more generations were made after {} ns had passed, the limit is {} ns", ai, desc(s, i), cs.len() - k - 1, end - a.t_create1, l));
                        break;
                    }
                    o.n("generations_within_time");
                }
            }
            if matches!(s.out, Outcome::Go) {
                o.bad("no-result", format!("actor {} {}: run returned nothing", ai, desc(s, i)));
            }
        }
        if s.op.is_gen() {
            o.n("next_calls_returned");
            if matches!(s.out, Outcome::Go) && s.after.gen != b.gen + 1 {
                o.bad("stuck", format!("actor {} {}: returned None without completing a generation", ai, desc(s, i)));
            }
            if s.e1 == s.e0 {
                o.bad("stuck", format!("actor {} {}: no evaluation was made", ai, desc(s, i)));
            }
        }
    }
}
