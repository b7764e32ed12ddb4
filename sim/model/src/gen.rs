//! Seeded swarm generation of plans: a plan is a pure function of (property, seed, index, tier).

use crate::judge::bit;
use crate::plan::*;
use simrt::rng::{mix, Hash, Rng};

const MS: u64 = 1_000_000;
const SEC: u64 = 1_000_000_000;

pub fn properties() -> Vec<&'static str> {
    vec![
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
        "C17", "C18", "C19", "C20",
    ]
}

fn fv(x: &[f64]) -> Vec<F> {
    x.iter().map(|v| F(*v)).collect()
}

struct G {
    r: Rng,
    deep: bool,
}

impl G {
    fn dim(&mut self) -> usize {
        match self.r.below(20) {
            0 => 1,
            1..=12 => self.r.range(2, 5) as usize,
            13..=17 => self.r.range(6, 10) as usize,
            _ => {
                if self.r.chance(0.15) {
                    self.r.log_range(17, 50) as usize
                } else if self.deep {
                    self.r.range(11, 30) as usize
                } else {
                    self.r.range(11, 16) as usize
                }
            }
        }
    }

    fn seed(&mut self) -> Option<u64> {
        Some(match self.r.below(8) {
            0 => self.r.below(4),
            1 => u64::MAX - self.r.below(3),
            _ => self.r.next(),
        })
    }

    fn cfg(&mut self, dim: usize) -> Cfg {
        let r = &mut self.r;
        let mean: Vec<F> = (0..dim).map(|_| F(r.uni(-3.0, 3.0))).collect();
        let sigma = match r.below(12) {
            0 => r.uni(5.0, 50.0),
            1 => 10f64.powf(r.uni(-6.0, -1.0)),
            _ => r.uni(0.1, 3.0),
        };
        let lambda = match r.below(10) {
            0 => Some(r.range(2, 5) as usize),
            1 | 2 => Some(r.range(4, 40) as usize),
            3 if r.chance(0.12) => Some(r.log_range(41, 400) as usize),
            3 => Some(r.range(4, 40) as usize),
            _ => None,
        };
        let weights = *r.pick(&[W::Negative, W::Negative, W::Positive, W::Uniform]);
        let cm = match r.below(20) {
            0..=15 => 1.0,
            16 => 10f64.powf(r.uni(-5.0, -1.3)),
            _ => r.uni(0.05, 1.0),
        };
        let maximize = r.chance(0.4);
        let seed = self.seed();
        // limits too large to be ever reached
        let mut never = |p: f64| self.r.chance(0.03) && self.r.chance(p);
        let (huge_evals, huge_gens, huge_time, huge_stag) = (never(0.5), never(0.5), never(0.7), never(0.5));
        Cfg {
            mean,
            sigma: F(sigma),
            maximize,
            lambda,
            weights,
            parallel_update: false,
            cm: F(cm),
            con: None,
            max_resamples: None,
            max_evals: huge_evals.then_some(usize::MAX),
            max_gens: huge_gens.then_some(usize::MAX),
            max_time_ns: huge_time.then_some(u64::MAX),
            fun_target: None,
            tol_fun: None,
            tol_fun_rel: None,
            tol_fun_hist: None,
            tol_x: None,
            tol_stagnation: huge_stag.then_some(usize::MAX),
            tol_x_up: None,
            tol_condition_cov: None,
            seed,
            plot_gap: None,
            print_gap: None,
        }
    }

    fn lambda(&self, c: &Cfg) -> u64 {
        c.lambda.unwrap_or(4 + (3.0 * (c.mean.len() as f64).ln()) as usize) as u64
    }

    fn no_tolerances(&mut self, c: &mut Cfg) {
        c.tol_fun = Some(F(0.0));
        c.tol_fun_rel = Some(F(0.0));
        c.tol_fun_hist = Some(F(0.0));
        c.tol_x = Some(F(0.0));
        c.tol_x_up = Some(F(f64::INFINITY));
        c.tol_condition_cov = Some(F(f64::INFINITY));
        c.tol_stagnation = Some(1_000_000);
    }

    fn obj(&mut self, dim: usize) -> Obj {
        let r = &mut self.r;
        let fun = *r.pick(&[
            Fun::Sphere,
            Fun::Sphere,
            Fun::Ellipsoid,
            Fun::Rosenbrock,
            Fun::Rastrigin,
            Fun::Cigar,
            Fun::Linear,
            Fun::Steps,
            Fun::Constant,
            Fun::Noise,
            Fun::NoisySphere,
            Fun::Sharp,
            Fun::Rotated,
            Fun::Few,
            Fun::DiffPow,
        ]);
        let shift = if r.chance(0.6) { (0..dim).map(|_| F(r.uni(-2.0, 2.0))).collect() } else { vec![] };
        let scale = if r.chance(0.7) { 1.0 } else { 10f64.powf(r.uni(-4.0, 4.0)) };
        let offset = if r.chance(0.7) { 0.0 } else { r.uni(-100.0, 100.0) };
        let form = *r.pick(&[Form::Struct, Form::Struct, Form::Closure, Form::BoxDyn, Form::Scaled, Form::FnRef]);
        Obj {
            fun,
            shift,
            scale: F(scale),
            offset: F(offset),
            noise: F(10f64.powf(r.uni(-3.0, 1.0))),
            seed: r.next(),
            drift: F(0.0),
            form,
            faults: vec![],
            delay_ns: 0,
            spin: if r.chance(0.3) { r.range(1, 12) as u32 } else { 0 },
            negate: false,
            nested: None,
            nested_join: false,
        }
    }

    /// A unimodal objective whose optimum is attained.
    fn easy(&mut self, dim: usize) -> Obj {
        let mut o = self.obj(dim);
        o.fun = *self.r.pick(&[Fun::Sphere, Fun::Ellipsoid, Fun::Rotated, Fun::Cigar, Fun::Rosenbrock, Fun::DiffPow]);
        o
    }

    fn both_forms(&mut self, o: &mut Obj) {
        // forms that implement both traits
        o.form = *self.r.pick(&[Form::Struct, Form::Closure, Form::Scaled, Form::FnRef]);
    }

    fn quiet(&mut self) -> SimPlan {
        let mut s = SimPlan::quiet();
        s.sched_seed = self.r.next();
        s.entropy_seed = self.r.next();
        s
    }

    fn policy(&mut self) -> Policy {
        let r = &mut self.r;
        match r.below(10) {
            0 => Policy::Coop,
            1..=4 => Policy::Random { mean: r.log_range(3, 3000) },
            5..=6 => Policy::Pct { depth: r.range(1, 6) as u32, span: r.log_range(2_000, 400_000) },
            7 => Policy::RoundRobin { slice: r.log_range(5, 500) },
            _ => Policy::Stall { victim: r.range(0, 8) as u16, until: r.log_range(1_000, 200_000), mean: r.log_range(10, 1000) },
        }
    }

    fn sched(&mut self) -> SimPlan {
        let mut s = self.quiet();
        s.policy = self.policy();
        s.workers = match self.r.below(6) {
            0 => 1,
            1 => 2,
            2 if self.r.chance(0.3) => self.r.range(9, 16) as usize,
            2 => 8,
            _ => self.r.range(2, 6) as usize,
        };
        if self.r.chance(0.3) {
            s.spurious = F(*self.r.pick(&[0.02, 0.2, 0.5]));
        }
        if self.r.chance(0.25) {
            for _ in 0..self.r.range(1, 4) {
                let t = self.r.log_range(100, 200_000);
                let ns = self.r.log_range(1, 10 * SEC);
                s.leaps.push((t, ns));
            }
            s.leaps.sort();
        }
        if self.r.chance(0.25) {
            self.jumps(&mut s);
        }
        s
    }

    fn jumps(&mut self, s: &mut SimPlan) {
        for _ in 0..self.r.range(1, 4) {
            let t = self.r.log_range(100, 200_000);
            let ns = self.r.log_range(1, 1000 * SEC) as i64;
            s.wall_jumps.push((t, if self.r.chance(0.5) { -ns } else { ns }));
        }
        s.wall_jumps.sort();
    }

    fn soft_stdout(&mut self, s: &mut SimPlan) {
        match self.r.below(3) {
            0 => s.stdout.max_write = Some(self.r.range(1, 9)),
            1 => s.stdout.eintr_every = Some(self.r.range(2, 7)),
            _ => {
                s.stdout.max_write = Some(self.r.range(1, 40));
                s.stdout.eintr_every = Some(self.r.range(2, 9));
            }
        }
    }

    fn place(&mut self) -> Option<usize> {
        match self.r.below(4) {
            0 => Some(0),
            1 => Some(self.r.range(1, 5) as usize),
            _ => None,
        }
    }

    /// How many generations fit the evaluation budget.
    fn ngen(&mut self, c: &Cfg, evals: u64) -> u64 {
        let d = c.mean.len() as u64;
        // cost of a generation in the eigendecomposition grows with d^3
        let cost = self.lambda(c) + d * d / 12;
        let cap = (evals / cost).max(3);
        self.r.log_range(3, cap.max(4))
    }

    /// Faults that are pure functions of the point.
    fn pure_fault(&mut self, what: What, rate: u64) -> (Trig, What) {
        let t = if self.r.chance(0.8) {
            Trig::Hash { seed: self.r.next(), one_in: self.r.range(1.max(rate / 4), rate) }
        } else {
            Trig::Region { above: F(self.r.uni(-1.0, 4.0)) }
        };
        (t, what)
    }
    fn any_fault(&mut self, what: What, steps: u64, lambda: u64) -> (Trig, What) {
        let t = match self.r.below(5) {
            0 => Trig::Call { n: self.r.below((steps * lambda).max(1)), count: self.r.range(1, 2 * lambda) },
            1 => Trig::Call { n: self.r.below((steps * lambda).max(1)), count: 1 },
            2 => Trig::Hash { seed: self.r.next(), one_in: self.r.log_range(2, 20 * lambda) },
            3 => {
                let from = self.r.below(steps.max(1));
                Trig::Steps { from, to: from + self.r.range(1, 4), one_in: *self.r.pick(&[1, 1, 2, 5]), seed: self.r.next() }
            }
            _ => Trig::Region { above: F(self.r.uni(-1.0, 4.0)) },
        };
        (t, what)
    }
    fn odd_value(&mut self) -> What {
        *self.r.pick(&[
            What::Inf,
            What::NegInf,
            What::Huge,
            What::NegHuge,
            What::NegZero,
            What::Zero,
            What::Tiny,
            What::Stuck,
        ])
    }
    fn time_fault(&mut self) -> What {
        match self.r.below(3) {
            0 => What::Stall(self.r.log_range(1, 5 * SEC)),
            1 => What::Leap(self.r.log_range(1, 3600 * SEC)),
            _ => What::Wall({
                let n = self.r.log_range(1, 100_000 * SEC) as i64;
                if self.r.chance(0.5) {
                    -n
                } else {
                    n
                }
            }),
        }
    }

    /// A time limit, and a pause that ends just before it.
    fn almost(&mut self, calls: u64) -> (u64, (Trig, What)) {
        let l = self.r.log_range(SEC, 10_000_000 * SEC);
        let d = self.r.log_range(1000, l / 100).min(self.r.log_range(1000, SEC));
        (l, (Trig::Call { n: self.r.below(calls.max(1)), count: 1 }, What::Leap(l - d)))
    }

    /// A mix of single calls, loops and runs.
    fn ops(&mut self, n: u64, modes: u8) -> Vec<Op> {
        let pick = |r: &mut Rng| match modes {
            0 => false,
            1 => true,
            _ => r.chance(0.5),
        };
        let mut ops = vec![];
        let mut left = n;
        while left > 0 {
            let par = pick(&mut self.r);
            match self.r.below(3) {
                0 => {
                    ops.push(if par { Op::NextPar } else { Op::Next });
                    left -= 1;
                }
                _ => {
                    let k = self.r.range(1, left);
                    let past_end = self.r.chance(0.7);
                    ops.push(Op::Gens { n: k, par, past_end });
                    left -= k;
                }
            }
        }
        ops
    }

    fn limit(&mut self, c: &mut Cfg, n: u64) {
        let lam = self.lambda(c);
        match self.r.below(3) {
            0 => c.max_gens = Some(n as usize),
            1 => c.max_evals = Some((n * lam).saturating_sub(self.r.below(lam)) as usize),
            _ => {
                c.max_gens = Some(n as usize);
                c.max_evals = Some(self.r.range(1, 2 * n * lam) as usize);
            }
        }
    }

    fn rcfg(&mut self, dim: usize) -> RCfg {
        let lo = self.r.uni(-4.0, 1.0);
        let hi = lo + self.r.uni(0.1, 6.0);
        let strat = match self.r.below(3) {
            0 => Strat::Local {
                max_runs: self.r.below(7) as usize,
                factor: if self.r.chance(0.5) { None } else { Some(F(self.r.uni(0.01, 2.0))) },
            },
            1 => Strat::Ipop { factor: if self.r.chance(0.5) { None } else { Some(self.r.range(1, 3) as usize) } },
            _ => Strat::Bipop {
                lr: if self.r.chance(0.5) { None } else { Some(F(self.r.uni(0.01, 1.0))) },
                factor: if self.r.chance(0.5) { None } else { Some(self.r.range(1, 3) as usize) },
            },
        };
        let lim = if self.deep { 6000 } else { 2500 };
        let mut base = None;
        if self.r.chance(0.4) {
            let mut b = self.cfg(dim);
            b.maximize = false;
            b.seed = None;
            b.lambda = if self.r.chance(0.5) { Some(self.r.range(2, 12) as usize) } else { None };
            if self.r.chance(0.5) {
                b.tol_fun = Some(F(10f64.powf(self.r.uni(-12.0, 1.0))));
                b.tol_fun_hist = b.tol_fun;
            }
            if self.r.chance(0.2) {
                b.con = Some(Con::Box { lo: F(lo - 0.5), hi: F(hi + 0.5) });
            }
            // the limits of the restarter take the place of these
            if self.r.chance(0.15) {
                b.max_gens = Some(self.r.log_range(1, 40) as usize);
            }
            if self.r.chance(0.15) {
                b.max_evals = Some(self.r.log_range(1, 400) as usize);
            }
            if self.r.chance(0.15) {
                b.fun_target = Some(F(10f64.powf(self.r.uni(-3.0, 4.0)) * if self.r.chance(0.5) { -1.0 } else { 1.0 }));
            }
            base = Some(b);
        }
        let mut x = RCfg {
            dim,
            lo: F(lo),
            hi: F(hi),
            strat,
            maximize: self.r.chance(0.4),
            parallel_update: false,
            fun_target: None,
            max_evals: None,
            max_time_ns: None,
            max_evals_per_run: None,
            max_gens_per_run: None,
            print: true,
            seed: self.seed(),
            base,
            api: *self.r.pick(&[RApi::Run, RApi::RunPar, RApi::Reuse, RApi::ReusePar]),
        };
        if self.r.chance(0.5) {
            x.max_gens_per_run = Some(self.r.log_range(1, 60) as usize);
        }
        if self.r.chance(0.4) {
            x.max_evals_per_run = Some(self.r.log_range(1, 600) as usize);
        }
        let endless = !matches!(x.strat, Strat::Local { .. });
        if endless || self.r.chance(0.4) {
            x.max_evals = Some(self.r.log_range(1, lim) as usize);
        } else if x.max_gens_per_run.is_none() && x.max_evals_per_run.is_none() {
            x.max_evals_per_run = Some(self.r.log_range(1, 800) as usize);
        }
        // a run without its own limits must end by tolerance; keep those bounded as well
        if x.max_gens_per_run.is_none() && x.max_evals_per_run.is_none() && self.r.chance(0.7) {
            x.max_evals_per_run = Some(self.r.log_range(50, lim) as usize);
        }
        // limits too large to be ever reached
        if self.r.chance(0.03) {
            x.max_time_ns = Some(u64::MAX);
        }
        if x.max_gens_per_run.is_none() && self.r.chance(0.03) {
            x.max_gens_per_run = Some(usize::MAX);
        }
        if x.max_evals_per_run.is_none() && self.r.chance(0.03) {
            x.max_evals_per_run = Some(usize::MAX);
        }
        if x.max_evals.is_none() && self.r.chance(0.03) {
            x.max_evals = Some(usize::MAX);
        }
        x
    }

    /// Runs that end for less usual reasons.
    fn other_ends(&mut self, r: &mut RCfg, o: &mut Obj) {
        o.fun = *self.r.pick(&[Fun::Linear, Fun::Linear, Fun::Cigar, Fun::Ellipsoid, Fun::DiffPow, Fun::Noise, Fun::Constant, Fun::Few]);
        if r.base.is_none() {
            let mut b = self.cfg(r.dim);
            b.maximize = false;
            b.seed = None;
            b.lambda = if self.r.chance(0.5) { Some(self.r.range(2, 12) as usize) } else { None };
            r.base = Some(b);
        }
        let k = self.r.below(6);
        let e = self.r.uni(0.1, 8.0);
        let b = r.base.as_mut().unwrap();
        match k {
            0 | 1 => b.tol_condition_cov = Some(F(10f64.powf(e))),
            2 => b.tol_x_up = Some(F(10f64.powf(e / 4.0))),
            3 => b.tol_x = Some(F(10f64.powf(-e / 2.0))),
            4 => b.tol_stagnation = Some(1 + (e * 4.0) as usize),
            _ => b.tol_fun_rel = Some(F(10f64.powf(-e / 3.0))),
        }
        r.max_gens_per_run = Some(r.max_gens_per_run.unwrap_or(400).max(60));
        if let Some(x) = r.max_evals_per_run.as_mut() {
            *x = (*x).max(600);
        }
        if let Some(x) = r.max_evals.as_mut() {
            *x = (*x).max(1500);
        }
    }

    /// Runs that end because the distribution breaks down.
    fn breaking_runs(&mut self, r: &mut RCfg, o: &mut Obj) {
        let dim = r.dim;
        let mut b = self.cfg(dim);
        b.maximize = false;
        b.seed = None;
        b.lambda = Some(self.r.range(4, 8) as usize);
        self.no_tolerances(&mut b);
        b.weights = W::Negative;
        r.base = Some(b);
        r.strat = Strat::Local { max_runs: self.r.range(2, 4) as usize, factor: None };
        r.max_gens_per_run = Some(2500);
        r.max_evals_per_run = None;
        r.max_evals = None;
        r.max_time_ns = None;
        r.fun_target = None;
        o.fun = *self.r.pick(&[Fun::Linear, Fun::Linear, Fun::Cigar, Fun::Noise, Fun::Sphere, Fun::Few]);
        o.scale = F(10f64.powf(self.r.uni(-250.0, 0.0)));
        let k = 10f64.powf(self.r.uni(-140.0, 140.0));
        r.lo.0 *= k;
        r.hi.0 *= k;
    }

    /// A long sequence of very short runs.
    fn many_runs(&mut self, r: &mut RCfg) {
        r.max_gens_per_run = Some(self.r.range(1, 3) as usize);
        if let Strat::Local { max_runs, .. } = &mut r.strat {
            *max_runs = self.r.range(10, 40) as usize;
        }
        if let Some(b) = &mut r.base {
            b.lambda = Some(self.r.range(2, 4) as usize);
        }
        if !matches!(r.strat, Strat::Local { .. }) {
            r.max_evals = Some(self.r.log_range(500, if self.deep { 8000 } else { 3000 }) as usize);
        }
    }

    fn robj(&mut self, dim: usize) -> Obj {
        let mut o = self.obj(dim);
        o.form = *self.r.pick(&[Form::Struct, Form::Closure]);
        if matches!(o.fun, Fun::Linear | Fun::Noise | Fun::Few | Fun::NoisySphere) {
            o.fun = *self.r.pick(&[Fun::Rastrigin, Fun::Sphere, Fun::Steps]);
        }
        o
    }
}

fn cm(cfg: Cfg, obj: Obj, ops: Vec<Op>, place: Option<usize>) -> Actor {
    Actor { kind: Kind::Cmaes { cfg, obj, ops }, place }
}
fn phase(name: &str, sim: SimPlan, actors: Vec<Actor>) -> Phase {
    Phase { name: name.into(), sim, actors, turns: None }
}
fn to_par(ops: &[Op], how: &mut dyn FnMut() -> bool) -> Vec<Op> {
    ops.iter()
        .map(|o| match o {
            Op::Next | Op::NextPar => {
                if how() {
                    Op::NextPar
                } else {
                    Op::Next
                }
            }
            Op::Gens { n, past_end, .. } => Op::Gens { n: *n, par: how(), past_end: *past_end },
            Op::Run | Op::RunPar => {
                if how() {
                    Op::RunPar
                } else {
                    Op::Run
                }
            }
            x => x.clone(),
        })
        .collect()
}

const ALL: u32 = 0xffff;
fn all_but(fs: &[usize]) -> u32 {
    ALL & !bit(fs)
}

pub fn plan(property: &str, seed: u64, index: u64, deep: bool) -> Plan {
    let mut h = Hash::new();
    for b in property.bytes() {
        h.u(b as u64);
    }
    h.u(seed);
    h.u(index);
    let mut g = G { r: Rng::new(mix(h.0)), deep };
    let mut p = Plan {
        property: property.into(),
        scenario: String::new(),
        seed,
        index,
        phases: vec![],
        cmps: vec![],
        seeds_from: vec![],
        lines: vec![],
    };
    let big = if deep { 6000 } else { 2000 };
    match property {
        "C01" => c01(&mut g, &mut p, big),
        "C02" => c02(&mut g, &mut p, big),
        "C03" | "C04" => c03(&mut g, &mut p, big, property),
        "C05" => c05(&mut g, &mut p, big),
        "C06" => c06(&mut g, &mut p, big),
        "C07" => c07(&mut g, &mut p, big),
        "C08" => c08(&mut g, &mut p, big, index),
        "C09" => c09(&mut g, &mut p, big, index),
        "C10" => c10(&mut g, &mut p, big),
        "C11" | "C12" => c11(&mut g, &mut p, property),
        "C13" => c13(&mut g, &mut p, big),
        "C14" => c14(&mut g, &mut p, big),
        "C15" => c15(&mut g, &mut p),
        "C16" => c16(&mut g, &mut p, big),
        "C17" => c17(&mut g, &mut p, big),
        "C18" => c18(&mut g, &mut p, big),
        "C19" => c19(&mut g, &mut p, big),
        "C20" => c20(&mut g, &mut p, big),
        _ => panic!("unknown property {}", property),
    }
    // the option that spreads sampling and updating over threads, where nothing is compared bitwise
    let single = p.phases.len() == 1 && p.cmps.is_empty() && p.scenario != "marathon" && p.scenario != "breakdown";
    if single && !matches!(property, "C01" | "C02" | "C13" | "C14" | "C15" | "C20") {
        let mut g = G { r: Rng::new(mix(h.0 ^ 0x5eed_0fda_7a00)), deep };
        if g.r.chance(0.15) {
            let s = g.sched();
            let ph = &mut p.phases[0];
            if ph.actors.len() == 1 {
                let on = match &mut ph.actors[0].kind {
                    Kind::Cmaes { cfg, .. } => {
                        cfg.parallel_update = true;
                        true
                    }
                    Kind::Restart { r, .. } => {
                        r.parallel_update = true;
                        true
                    }
                    _ => false,
                };
                if on {
                    ph.sim.policy = coarser(s.policy, 60);
                    ph.sim.workers = s.workers;
                    p.scenario.push_str("+parallel-update");
                }
            }
        }
    }
    p
}

/// Every generation costs many scheduling points when sampling and updating are parallel.
fn coarser(p: Policy, at_least: u64) -> Policy {
    match p {
        Policy::Random { mean } => Policy::Random { mean: mean.max(at_least) },
        Policy::RoundRobin { slice } => Policy::RoundRobin { slice: slice.max(at_least) },
        Policy::Stall { victim, until, mean } => Policy::Stall { victim, until, mean: mean.max(at_least) },
        p => p,
    }
}

/// Swarm of value faults that depend only on the point; panics and NaN never together.
fn pure_faults(g: &mut G, o: &mut Obj, lambda: u64) {
    let k = g.r.below(6);
    match k {
        0 => {
            let f = g.pure_fault(What::Nan, 12 * lambda);
            o.faults.push(f);
        }
        1 => {
            let f = g.pure_fault(What::Panic, 12 * lambda);
            o.faults.push(f);
        }
        2 | 3 => {
            for _ in 0..g.r.range(1, 3) {
                let mut w = g.odd_value();
                if w == What::Stuck {
                    w = What::Inf
                }
                let f = g.pure_fault(w, 6 * lambda);
                o.faults.push(f);
            }
        }
        _ => {}
    }
    if g.r.chance(0.3) {
        let f = (Trig::Hash { seed: g.r.next(), one_in: g.r.range(2, 4 * lambda) }, What::Stall(g.r.log_range(1, SEC)));
        o.faults.push(f);
    }
    if g.r.chance(0.3) {
        o.delay_ns = g.r.log_range(1, 50 * MS);
    }
}

fn c01(g: &mut G, p: &mut Plan, big: u64) {
    let dim = g.dim();
    let mask = all_but(&[13, 15]);
    if g.r.chance(0.08) {
        // everything in parallel: up to rounding, what the model says
        p.scenario = "parallel-update".into();
        let mut c = g.cfg(dim);
        c.parallel_update = true;
        let mut o = g.obj(dim);
        g.both_forms(&mut o);
        let n = g.ngen(&c, big);
        let ops = g.ops(n, 2);
        let (mut s, pl) = (g.sched(), g.place());
        s.policy = coarser(s.policy, 30);
        p.phases.push(phase("parallel update", s, vec![cm(c, o, ops, pl)]));
        return;
    }
    if g.r.chance(0.15) {
        // restarts
        p.scenario = "restart-seq-vs-par".into();
        let dim = g.r.range(1, 4) as usize;
        let mut r = g.rcfg(dim);
        let mut o = g.robj(dim);
        pure_faults(g, &mut o, 8);
        o.faults.retain(|f| !matches!(f.1, What::Panic));
        r.print = g.r.chance(0.5);
        r.max_evals = r.max_evals.map(|e| e.min(1200));
        let (a, b) = if g.r.chance(0.5) { (RApi::Run, RApi::RunPar) } else { (RApi::Reuse, RApi::ReusePar) };
        for (i, api) in [a, b, b].iter().enumerate() {
            let mut rr = r.clone();
            rr.api = *api;
            let sim = if i == 0 { g.quiet() } else { g.sched() };
            let place = if i == 2 { Some(g.r.range(1, 5) as usize) } else { None };
            p.phases.push(phase(["sequential", "parallel", "parallel, other schedule"][i], sim, vec![Actor { kind: Kind::Restart { r: rr, obj: o.clone() }, place }]));
        }
    } else {
        p.scenario = "seq-vs-par".into();
        let mut c = g.cfg(dim);
        let mut o = g.obj(dim);
        g.both_forms(&mut o);
        let lam = g.lambda(&c);
        pure_faults(g, &mut o, lam);
        let n = g.ngen(&c, big / 2);
        if g.r.chance(0.2) {
            c.con = Some(Con::Half { b: F(g.r.uni(-2.0, 6.0)) });
        }
        if g.r.chance(0.1) {
            o.nested_join = true;
        }
        if g.r.chance(0.12) && !c.parallel_update {
            o.form = Form::Stretched;
        }
        let mut ops;
        if g.r.chance(0.3) {
            g.limit(&mut c, n);
            ops = vec![Op::Run];
            if g.r.chance(0.3) {
                ops.push(Op::Next);
            }
        } else {
            ops = g.ops(n, 0);
        }
        if g.r.chance(0.2) {
            c.plot_gap = Some(g.r.range(1, 50) as usize);
        }
        let mut rr = g.r.fork(1);
        let par = to_par(&ops, &mut || true);
        let mixed = to_par(&ops, &mut || rr.chance(0.5));
        let mut s2 = g.sched();
        let mut s3 = g.sched();
        if g.r.chance(0.3) {
            s2.workers = 1;
        }
        if g.r.chance(0.3) {
            s3.workers = g.r.range(6, 12) as usize;
        }
        let pl = g.place();
        let (q, o2, o3) = (g.quiet(), o.clone(), o.clone());
        p.phases.push(phase("sequential", q, vec![cm(c.clone(), o, ops, None)]));
        p.phases.push(phase("parallel", s2, vec![cm(c.clone(), o2, par, None)]));
        p.phases.push(phase(if g.r.chance(2.0) { "mixed, other schedule" } else { "" }, s3, vec![cm(c, o3, mixed, pl)]));
    }
    for b in 1..3 {
        p.cmps.push(Cmp { a: 0, b, actors: vec![(0, 0)], final_only: false, mask, what: "parallel and sequential evaluation disagree".into() });
    }
}

fn c02(g: &mut G, p: &mut Plan, big: u64) {
    if g.r.chance(0.06) {
        p.scenario = "unseeded".into();
        let k = g.r.range(2, 5);
        let mut actors = vec![];
        let turns = g.r.chance(0.5);
        for _ in 0..k {
            let place = if turns { None } else { Some(g.r.below(4) as usize) };
            if g.r.chance(0.25) {
                let mut r = g.rcfg(2);
                r.seed = None;
                r.max_evals = Some(100);
                r.max_evals_per_run = Some(50);
                let o = g.robj(2);
                actors.push(Actor { kind: Kind::Restart { r, obj: o }, place: if turns { Some(0) } else { place } });
            } else {
                let dim = g.r.range(1, 4) as usize;
                let mut c = g.cfg(dim);
                c.seed = None;
                let o = g.obj(dim);
                let n = g.r.range(1, 5);
                actors.push(cm(c, o, vec![Op::Gens { n, par: false, past_end: false }], place));
            }
        }
        let s1 = if g.r.chance(0.5) { g.sched() } else { g.quiet() };
        let mut s2 = s1.clone();
        s2.entropy_seed = g.r.next();
        p.phases.push(phase("together", s1, actors.clone()));
        p.phases.push(phase("again, other entropy", s2, actors));
        return;
    }
    match g.r.below(10) {
        0..=4 => {
            p.scenario = "replay-from-reported-seed".into();
            let dim = g.dim();
            let mut c = g.cfg(dim);
            let mut o = g.obj(dim);
            let lam = g.lambda(&c);
            let par = g.r.chance(0.4);
            if o.form == Form::MutRef || par {
                g.both_forms(&mut o);
            }
            let unseeded = g.r.chance(0.6);
            if unseeded {
                c.seed = None;
            }
            let n = g.ngen(&c, big / 2);
            let mut ops = g.ops(n, par as u8);
            if g.r.chance(0.3) {
                g.limit(&mut c, n);
                ops = vec![if par { Op::RunPar } else { Op::Run }];
            }
            if g.r.chance(0.3) {
                let w = g.odd_value();
                let w = if w == What::Stuck { What::Huge } else { w };
                let f = g.pure_fault(w, 8 * lam);
                o.faults.push(f);
            }
            if g.r.chance(0.2) {
                c.con = Some(Con::Half { b: F(g.r.uni(-2.0, 6.0)) });
            }
            let mut c2 = c.clone();
            let mut o2 = o.clone();
            o2.spin = 0;
            o2.delay_ns = g.r.log_range(1, 100 * MS);
            if g.r.chance(0.5) {
                c2.print_gap = Some(g.r.range(1, 100) as usize);
            }
            if g.r.chance(0.5) {
                c2.plot_gap = Some(g.r.range(1, 100) as usize);
            }
            if g.r.chance(0.5) {
                let n = 1 + g.r.below(n * lam);
                let w = g.time_fault();
                o2.faults.push((Trig::Call { n, count: 1 }, w));
            }
            let (s1, mut s2) = (g.sched(), g.sched());
            g.jumps(&mut s2);
            let pl = g.place();
            p.phases.push(phase("original", s1, vec![cm(c, o, ops.clone(), None)]));
            p.phases.push(phase("replay", s2, vec![cm(c2, o2, ops, pl)]));
            if unseeded {
                p.seeds_from.push((1, 0, 0, 0));
            }
            let m = if par { all_but(&[13, 14, 15]) } else { all_but(&[13, 14]) };
            p.cmps.push(Cmp { a: 0, b: 1, actors: vec![(0, 0)], final_only: false, mask: m, what: "the same seed did not reproduce the run".into() });
        }
        5 => {
            p.scenario = "run-vs-next-loop".into();
            let dim = g.dim();
            let mut c = g.cfg(dim);
            let o = g.obj(dim);
            let n = g.ngen(&c, big);
            g.limit(&mut c, n);
            let (s1, s2) = (g.sched(), g.sched());
            let par = g.r.chance(0.3);
            let mut o = o;
            if par {
                g.both_forms(&mut o);
            }
            p.phases.push(phase("run", s1, vec![cm(c.clone(), o.clone(), vec![if par { Op::RunPar } else { Op::Run }], None)]));
            p.phases.push(phase("loop of next", s2, vec![cm(c, o, vec![Op::Gens { n: 2 * n + 10_000, par, past_end: false }], None)]));
            let m = if par { all_but(&[13, 15]) } else { all_but(&[13]) };
            p.cmps.push(Cmp { a: 0, b: 1, actors: vec![(0, 0)], final_only: true, mask: m, what: "run() is not a loop of next()".into() });
        }
        6 => {
            p.scenario = "fmin-printed-seed".into();
            let dim = g.r.range(1, 4) as usize;
            let mut o = g.easy(dim);
            g.both_forms(&mut o);
            if o.fun == Fun::Rosenbrock {
                o.fun = Fun::Sphere;
            }
            let max = g.r.chance(0.5);
            let par = g.r.chance(0.5);
            if max {
                o.scale = F(-o.scale.0);
            }
            let mut c = g.cfg(dim);
            c.lambda = None;
            c.weights = W::Negative;
            c.cm = F(1.0);
            c.maximize = max;
            c.seed = None;
            c.sigma = F(g.r.uni(0.1, 3.0));
            let (s1, s2) = (g.sched(), g.sched());
            p.phases.push(phase("fmin", s1, vec![Actor { kind: Kind::Func { mean: c.mean.clone(), sigma: c.sigma.0.into_f(), max, par, obj: o.clone() }, place: None }]));
            p.phases.push(phase("default options with the printed seed", s2, vec![cm(c, o, vec![Op::Run], None)]));
            p.seeds_from.push((1, 0, 0, 0));
            let m = if par { bit(&[9]) } else { bit(&[9, 15]) };
            p.cmps.push(Cmp { a: 0, b: 1, actors: vec![(0, 0)], final_only: true, mask: m, what: "fmin and the equivalent run with its printed seed".into() });
        }
        _ => {
            p.scenario = "restarter-replay".into();
            let dim = g.r.range(1, 5) as usize;
            let mut r = g.rcfg(dim);
            let o = g.robj(dim);
            let unseeded = g.r.chance(0.6);
            if unseeded {
                r.seed = None;
            }
            r.print = g.r.chance(0.4);
            let mut r2 = r.clone();
            r2.print = g.r.chance(0.4);
            let par = matches!(r.api, RApi::RunPar | RApi::ReusePar);
            let (s1, mut s2) = (g.sched(), g.sched());
            g.jumps(&mut s2);
            let mut o2 = o.clone();
            o2.delay_ns = g.r.log_range(1, 100 * MS);
            let pl = g.place();
            p.phases.push(phase("original", s1, vec![Actor { kind: Kind::Restart { r, obj: o }, place: None }]));
            p.phases.push(phase("replay", s2, vec![Actor { kind: Kind::Restart { r: r2, obj: o2 }, place: pl }]));
            if unseeded {
                p.seeds_from.push((1, 0, 0, 0));
            }
            let m = if par { all_but(&[13, 15]) } else { all_but(&[13]) };
            p.cmps.push(Cmp { a: 0, b: 1, actors: vec![(0, 0)], final_only: true, mask: m, what: "the same restart seed did not reproduce the restarts".into() });
        }
    }
}

trait IntoF {
    fn into_f(self) -> F;
}
impl IntoF for f64 {
    fn into_f(self) -> F {
        F(self)
    }
}

fn func_actor(g: &mut G) -> Actor {
    let dim = g.r.range(1, 5) as usize;
    let mut o = g.easy(dim);
    o.form = Form::Struct;
    if g.r.chance(0.3) {
        o.fun = *g.r.pick(&[Fun::Rastrigin, Fun::Steps, Fun::Constant]);
    }
    let max = g.r.chance(0.5);
    if max {
        o.scale = F(-o.scale.0);
    }
    let mean = (0..dim).map(|_| F(g.r.uni(-3.0, 3.0))).collect();
    let sigma = F(g.r.uni(0.1, 3.0));
    let par = g.r.chance(0.5);
    Actor { kind: Kind::Func { mean, sigma, max, par, obj: o }, place: g.place() }
}

fn c03(g: &mut G, p: &mut Plan, big: u64, id: &str) {
    if g.r.chance(0.08) {
        p.scenario = "fmin-family".into();
        let a = func_actor(g);
        let s = g.sched();
        p.phases.push(phase("run", s, vec![a]));
        return;
    }
    if g.r.chance(if id == "C03" { 0.06 } else { 0.03 }) {
        return breakdown(g, p);
    }
    p.scenario = "evaluations".into();
    let dim = g.dim();
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    let modes = g.r.below(3) as u8;
    if modes > 0 {
        g.both_forms(&mut o);
    }
    let n = g.ngen(&c, big);
    let lam = g.lambda(&c);
    for _ in 0..g.r.below(4) {
        let w = match g.r.below(8) {
            0 | 1 => What::Nan,
            2 => What::NegNan,
            3 if id == "C03" => What::Panic,
            4 => What::Inf,
            5 => What::NegInf,
            _ => g.odd_value(),
        };
        let f = g.any_fault(w, n, lam);
        o.faults.push(f);
    }
    if g.r.chance(0.2) && modes == 0 {
        o.drift = F(g.r.uni(-0.1, 0.1));
    }
    if g.r.chance(0.3) {
        o.delay_ns = g.r.log_range(1, 50 * MS);
    }
    if g.r.chance(0.5) {
        g.no_tolerances(&mut c);
    }
    if g.r.chance(0.2) {
        c.con = Some(Con::Flaky { p: F(g.r.uni(0.1, 0.9)), seed: g.r.next() });
    }
    let mut ops = g.ops(n, modes);
    if g.r.chance(0.3) {
        g.limit(&mut c, n);
        ops.insert(0, if modes == 1 { Op::RunPar } else { Op::Run });
    }
    if o.delay_ns > 0 && g.r.chance(0.5) {
        c.max_time_ns = Some(g.r.log_range(1, (o.delay_ns * lam * n).max(2)));
    }
    if g.r.chance(0.04) {
        o.offset = F(if g.r.chance(0.5) { f64::INFINITY } else { f64::NEG_INFINITY });
    }
    let s = g.sched();
    let pl = g.place();
    p.phases.push(phase("run", s, vec![cm(c, o, ops, pl)]));
}

/// Far enough for variances to overflow or underflow, with nothing to stop it earlier.
fn breakdown(g: &mut G, p: &mut Plan) {
    p.scenario = "breakdown".into();
    let dim = if g.r.chance(0.5) { 1 } else { g.r.range(2, 4) as usize };
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    g.no_tolerances(&mut c);
    c.lambda = Some(g.r.range(4, 8) as usize);
    o.fun = *g.r.pick(&[Fun::Linear, Fun::Linear, Fun::Linear, Fun::Cigar, Fun::Noise, Fun::Sphere]);
    o.scale = F(10f64.powf(g.r.uni(-250.0, 0.0)));
    c.sigma = F(10f64.powf(g.r.uni(-150.0, 150.0)));
    let n = g.r.range(500, 3000);
    let s = g.quiet();
    let par = g.r.chance(0.2);
    let ops = vec![Op::Gens { n, par, past_end: true }];
    o.form = Form::Struct;
    p.phases.push(phase("run", s, vec![cm(c, o, ops, None)]));
}

/// Long runs over infinite values of both signs with a small stagnation window.
fn infinities(g: &mut G, p: &mut Plan, end: bool) {
    p.scenario = if end { "infinities-end".into() } else { "infinities".into() };
    let dim = g.r.range(2, 5) as usize;
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    let par = g.r.chance(0.5);
    if par {
        g.both_forms(&mut o);
    }
    g.no_tolerances(&mut c);
    c.con = None;
    c.lambda = Some(*g.r.pick(&[4usize, 4, 6, 8, 5, 10]));
    c.tol_stagnation = Some(g.r.range(1, 12) as usize);
    if g.r.chance(0.3) {
        c.tol_fun_hist = None;
    }
    let n = g.r.range(80, 600);
    let one = g.r.range(1, 4);
    let s1 = g.r.next();
    let s2 = g.r.next();
    let s3 = g.r.next();
    o.faults = vec![
        (Trig::Hash { one_in: one, seed: s1 }, What::Inf),
        (Trig::Hash { one_in: g.r.range(1, 4), seed: s2 }, What::NegInf),
        (Trig::Hash { one_in: g.r.range(2, 60), seed: s3 }, What::Inf),
    ];
    if g.r.chance(0.5) {
        o.faults.swap(0, 1);
    }
    if !end && g.r.chance(0.3) {
        let f = g.any_fault(What::Nan, n, 8);
        o.faults.insert(0, f);
    }
    let ops = if end {
        c.max_gens = Some(n as usize);
        vec![if par { Op::RunPar } else { Op::Run }]
    } else {
        vec![Op::Gens { n, par, past_end: true }]
    };
    let s = g.sched();
    let pl = g.place();
    p.phases.push(phase("run", s, vec![cm(c, o, ops, pl)]));
}

fn c05(g: &mut G, p: &mut Plan, big: u64) {
    if g.r.chance(0.2) {
        return infinities(g, p, false);
    }
    if g.r.chance(0.08) {
        return breakdown(g, p);
    }
    p.scenario = "nan".into();
    let dim = g.dim();
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    let modes = g.r.below(3) as u8;
    if modes > 0 {
        g.both_forms(&mut o);
    }
    let n = g.ngen(&c, big / 2).max(4);
    let lam = g.lambda(&c);
    for _ in 0..g.r.range(1, 3) {
        let w = if g.r.chance(0.7) { What::Nan } else { What::NegNan };
        let f = match g.r.below(4) {
            // exactly one call, anywhere in a generation (first, last, middle)
            0 => (Trig::Call { n: g.r.below(n) * lam + *g.r.pick(&[0, lam - 1, lam / 2]), count: 1 }, w),
            1 => (Trig::Steps { from: g.r.below(n), to: n, one_in: g.r.range(1, 3), seed: g.r.next() }, w),
            _ => g.any_fault(w, n, lam),
        };
        o.faults.push(f);
    }
    if g.r.chance(0.4) {
        let w = g.odd_value();
        let f = g.any_fault(w, n, lam);
        o.faults.insert(0, f);
    }
    if g.r.chance(0.5) {
        g.no_tolerances(&mut c);
    }
    if g.r.chance(0.3) {
        c.plot_gap = Some(g.r.range(1, 40) as usize);
    }
    let mut ops = g.ops(n, modes);
    for x in ops.iter_mut() {
        if let Op::Gens { past_end, .. } = x {
            *past_end = true;
        }
    }
    if g.r.chance(0.25) {
        g.limit(&mut c, n);
        let at = g.r.below(ops.len() as u64) as usize;
        ops.insert(at, if modes == 1 { Op::RunPar } else { Op::Run });
    }
    let s = g.sched();
    let pl = g.place();
    p.phases.push(phase("run", s, vec![cm(c, o, ops, pl)]));
}

fn c06(g: &mut G, p: &mut Plan, big: u64) {
    p.scenario = "panic".into();
    let dim = g.dim();
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    let modes = *g.r.pick(&[0u8, 1, 1, 2]);
    if modes > 0 {
        g.both_forms(&mut o);
    }
    let n = g.ngen(&c, big / 2).max(4);
    let lam = g.lambda(&c);
    for _ in 0..g.r.range(1, 3) {
        let f = match g.r.below(4) {
            0 => (Trig::Call { n: g.r.below(n) * lam + *g.r.pick(&[0, lam - 1, lam / 2]), count: 1 }, What::Panic),
            1 => (Trig::Steps { from: g.r.below(n), to: n, one_in: g.r.range(1, 3), seed: g.r.next() }, What::Panic),
            _ => g.any_fault(What::Panic, n, lam),
        };
        o.faults.push(f);
    }
    if g.r.chance(0.3) {
        let f = g.any_fault(What::Nan, n, lam);
        o.faults.insert(0, f);
    }
    if g.r.chance(0.3) {
        o.nested_join = true;
    }
    if g.r.chance(0.3) {
        o.delay_ns = g.r.log_range(1, 20 * MS);
    }
    if g.r.chance(0.2) {
        p.scenario = "constraint-panic".into();
        if g.r.chance(0.5) {
            o.faults.clear();
        }
        let all = g.r.chance(0.3);
        c.con = Some(Con::Panics {
            at: g.r.below(n * lam),
            count: if all { g.r.range(1, 2 * lam) } else { 1 },
            one_in: if g.r.chance(0.3) { g.r.range(2, 20) * lam } else { 0 },
            seed: g.r.next(),
        });
        if g.r.chance(0.3) {
            c.max_resamples = Some(None);
        }
    }
    if c.con.is_none() && g.r.chance(0.2) {
        c.con = Some(match g.r.below(3) {
            0 => Con::Half { b: F(g.r.uni(-6.0, 6.0)) },
            1 => Con::Box { lo: F(g.r.uni(-5.0, 0.0)), hi: F(g.r.uni(0.5, 5.0)) },
            _ => Con::Flaky { p: F(g.r.uni(0.05, 0.95)), seed: g.r.next() },
        });
        if g.r.chance(0.5) {
            c.max_resamples = Some(Some(g.r.below(20) as usize));
        }
    }
    if g.r.chance(0.5) {
        g.no_tolerances(&mut c);
    }
    let mut ops = g.ops(n, modes);
    for x in ops.iter_mut() {
        if let Op::Gens { past_end, .. } = x {
            *past_end = true;
        }
    }
    if g.r.chance(0.2) {
        g.limit(&mut c, n);
        let at = g.r.below(ops.len() as u64) as usize;
        ops.insert(at, if modes == 1 { Op::RunPar } else { Op::Run });
    }
    if g.r.chance(0.3) {
        ops.push(Op::IntoObjective);
    }
    let s = g.sched();
    let mut pl = g.place();
    if modes == 1 && g.r.chance(0.3) {
        pl = Some(g.r.range(1, 4) as usize);
    }
    p.phases.push(phase("run", s, vec![cm(c, o, ops, pl)]));
}

fn c07(g: &mut G, p: &mut Plan, big: u64) {
    if g.r.chance(0.2) {
        p.scenario = "restart-time-limit".into();
        let dim = g.r.range(1, 4) as usize;
        let mut r = g.rcfg(dim);
        let mut o = g.robj(dim);
        o.delay_ns = g.r.log_range(1000, 20 * MS);
        r.print = matches!(r.api, RApi::Reuse | RApi::ReusePar) && g.r.chance(0.5);
        r.max_time_ns = Some(match g.r.below(8) {
            0 => 0,
            1 => 1,
            _ => g.r.log_range(1000, 5 * SEC),
        });
        if g.r.chance(0.5) {
            r.max_gens_per_run = Some(g.r.log_range(1, 20) as usize);
        }
        for _ in 0..g.r.below(3) {
            let w = g.time_fault();
            let n = g.r.below(500);
            o.faults.push((Trig::Call { n, count: 1 }, w));
        }
        if g.r.chance(0.2) {
            let (l, f) = g.almost(300);
            r.max_time_ns = Some(l);
            o.faults = vec![f];
        }
        let s = g.sched();
        p.phases.push(phase("run", s, vec![Actor { kind: Kind::Restart { r, obj: o }, place: None }]));
        return;
    }
    p.scenario = "time-limit".into();
    let dim = g.dim();
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    let modes = g.r.below(3) as u8;
    if modes > 0 {
        g.both_forms(&mut o);
    }
    let n = g.ngen(&c, big / 2).max(4);
    let lam = g.lambda(&c);
    o.delay_ns = if g.r.chance(0.2) { 0 } else { g.r.log_range(1000, 100 * MS) };
    let est = o.delay_ns.max(1000) / 2 * lam * n;
    if g.r.chance(0.9) {
        c.max_time_ns = Some(match g.r.below(8) {
            0 => 0,
            1 => 1,
            2 => g.r.log_range(1, 1000 * SEC),
            _ => g.r.range(1, est.max(2)),
        });
    }
    for _ in 0..g.r.below(4) {
        let w = g.time_fault();
        let f = if g.r.chance(0.5) {
            // around the middle of the run
            (Trig::Call { n: g.r.below(n * lam), count: 1 }, w)
        } else {
            g.any_fault(w, n, lam)
        };
        o.faults.push(f);
    }
    if g.r.chance(0.5) {
        g.no_tolerances(&mut c);
    }
    if g.r.chance(0.2) {
        p.scenario = "time-limit-almost-reached".into();
        let (l, f) = g.almost(n * lam / 2);
        c.max_time_ns = Some(l);
        o.faults = vec![f];
        if g.r.chance(0.5) {
            o.delay_ns = 0;
        }
    }
    if g.r.chance(0.3) {
        c.print_gap = Some(g.r.range(1, 50) as usize);
    }
    if g.r.chance(0.04) {
        o.offset = F(if g.r.chance(0.5) { f64::INFINITY } else { f64::NEG_INFINITY });
    }
    let mut ops = g.ops(n, modes);
    if g.r.chance(0.4) {
        c.max_gens = Some(n as usize);
        ops.insert(0, if modes == 1 { Op::RunPar } else { Op::Run });
    }
    for _ in 0..g.r.below(4) {
        let at = g.r.below(ops.len() as u64 + 1) as usize;
        let x = if g.r.chance(0.6) {
            Op::Idle { ns: g.r.log_range(1, 100 * SEC) }
        } else {
            let v = g.r.log_range(1, 100_000 * SEC) as i64;
            Op::Wall { ns: if g.r.chance(0.5) { -v } else { v } }
        };
        ops.insert(at, x);
    }
    let mut s = g.sched();
    if g.r.chance(0.5) {
        g.jumps(&mut s);
    }
    let pl = g.place();
    p.phases.push(phase("run", s, vec![cm(c, o, ops, pl)]));
}

fn c08(g: &mut G, p: &mut Plan, big: u64, index: u64) {
    let dim = if g.r.chance(0.7) { g.r.range(1, 6) as usize } else { g.dim() };
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    let modes = *g.r.pick(&[0u8, 0, 0, 1, 2]);
    let mut n = g.ngen(&c, 2 * big).max(10);
    let lam = g.lambda(&c);
    // the first three quarters aim at one reason each
    let aim = g.r.below(20);
    p.scenario = format!("aim-{}", aim);
    let upset = g.r.chance(if matches!(aim, 9 | 12 | 17) { 0.3 } else { 0.12 }).then(|| {
        let w = *g.r.pick(&[What::Nan, What::Panic]);
        g.any_fault(w, n, lam)
    });
    // nothing but infinite values: only limits can end it
    if aim < 3 && g.r.chance(0.1) || g.r.chance(0.01) {
        o.offset = F(if g.r.chance(0.5) { f64::INFINITY } else { f64::NEG_INFINITY });
    }
    let mut again = false;
    let off = |g: &mut G, c: &mut Cfg| {
        if g.r.chance(0.6) {
            g.no_tolerances(c)
        }
    };
    match aim {
        0 => {
            off(g, &mut c);
            c.max_evals = Some(g.r.log_range(1, n * lam) as usize);
            if g.r.chance(0.05) {
                c.max_evals = Some(0)
            }
        }
        1 => {
            off(g, &mut c);
            c.max_gens = Some(g.r.log_range(1, n) as usize);
            if g.r.chance(0.05) {
                c.max_gens = Some(0)
            }
        }
        2 => {
            off(g, &mut c);
            o = g.easy(dim);
            if c.maximize {
                o.scale = F(-o.scale.0)
            }
            let t = o.offset.0 + o.scale.0 * 10f64.powf(g.r.uni(-6.0, 1.5));
            c.fun_target = Some(F(t));
            if g.r.chance(0.1) {
                c.fun_target = Some(F(*g.r.pick(&[f64::INFINITY, f64::NEG_INFINITY])));
            }
        }
        3 => {
            off(g, &mut c);
            o = g.easy(dim);
            if c.maximize {
                o.scale = F(-o.scale.0)
            }
            c.tol_fun = Some(F(10f64.powf(g.r.uni(-8.0, 1.0))));
            n = n.max(120);
        }
        4 => {
            off(g, &mut c);
            o = g.easy(dim);
            if c.maximize {
                o.scale = F(-o.scale.0)
            }
            c.tol_fun_rel = Some(F(10f64.powf(g.r.uni(-8.0, -0.5))));
            n = n.max(120);
        }
        5 => {
            off(g, &mut c);
            o.fun = *g.r.pick(&[Fun::Steps, Fun::Constant, Fun::Few, Fun::Sphere]);
            c.tol_fun_hist = Some(F(10f64.powf(g.r.uni(-8.0, 1.0))));
            n = n.max(80);
        }
        6 => {
            off(g, &mut c);
            o = g.easy(dim);
            if c.maximize {
                o.scale = F(-o.scale.0)
            }
            c.tol_x = Some(F(c.sigma.0 * 10f64.powf(g.r.uni(-4.0, -0.3))));
            n = n.max(100);
        }
        7 => {
            off(g, &mut c);
            o.fun = *g.r.pick(&[Fun::Noise, Fun::NoisySphere, Fun::Few, Fun::Constant, Fun::Rastrigin]);
            c.tol_stagnation = Some(g.r.log_range(1, 60) as usize);
            n = n.max(150);
        }
        8 => {
            off(g, &mut c);
            o.fun = Fun::Linear;
            c.tol_x_up = Some(F(10f64.powf(g.r.uni(0.1, 5.0))));
            c.sigma = F(10f64.powf(g.r.uni(-5.0, -0.5)));
            n = n.max(60);
        }
        9 => {
            // large mean, small steps: no effect
            off(g, &mut c);
            let e = g.r.uni(8.0, 17.0);
            for m in c.mean.iter_mut() {
                *m = F(m.0 * 10f64.powf(e));
            }
            o.shift = c.mean.clone();
            o.fun = *g.r.pick(&[Fun::Sphere, Fun::Noise, Fun::Constant, Fun::Linear, Fun::Ellipsoid]);
        }
        10 => {
            off(g, &mut c);
            o.fun = *g.r.pick(&[Fun::Ellipsoid, Fun::Cigar, Fun::DiffPow]);
            c.tol_condition_cov = Some(F(if dim == 1 && g.r.chance(0.5) { 1.0 } else { 10f64.powf(g.r.uni(0.3, 5.0)) }));
            n = n.max(100);
        }
        11 => {
            off(g, &mut c);
            let f = g.any_fault(What::Nan, n, lam);
            o.faults.push(f);
        }
        12 => {
            // one coordinate far away
            off(g, &mut c);
            let k = g.r.below(dim as u64) as usize;
            c.mean[k] = F(10f64.powf(g.r.uni(10.0, 20.0)));
            if g.r.chance(0.5) {
                o.shift = c.mean.clone();
            }
        }
        13 => {
            off(g, &mut c);
            let w = *g.r.pick(&[What::Inf, What::NegInf, What::Huge, What::NegHuge]);
            let f = g.any_fault(w, n, lam);
            o.faults.push(f);
            c.tol_fun = Some(F(10f64.powf(g.r.uni(-8.0, 3.0))));
        }
        14 => {
            // several limits at once
            c.max_gens = Some(g.r.log_range(1, n) as usize);
            c.max_evals = Some((c.max_gens.unwrap() as u64 * lam + g.r.below(3)).saturating_sub(1) as usize);
            c.fun_target = Some(F(g.r.uni(-5.0, 20.0)));
            c.tol_fun = Some(F(10f64.powf(g.r.uni(-3.0, 3.0))));
        }
        15 => {
            // values with large common offset: relative tolerances
            off(g, &mut c);
            o.offset = F(10f64.powf(g.r.uni(3.0, 12.0)) * if g.r.chance(0.5) { -1.0 } else { 1.0 });
            c.tol_fun_rel = Some(F(10f64.powf(g.r.uni(-12.0, -3.0))));
        }
        16 => {
            // converge all the way with default tolerances
            o = g.easy(dim);
            if c.maximize {
                o.scale = F(-o.scale.0)
            }
            n = 600;
        }
        17 => {
            // collapse: run far past convergence
            g.no_tolerances(&mut c);
            c.tol_stagnation = Some(g.r.range(50, 100_000) as usize);
            o = g.easy(dim);
            if c.maximize {
                o.scale = F(-o.scale.0)
            }
            o.offset = F(0.0);
            if g.r.chance(0.5) {
                // the axes lose their effect one after the other
                o.shift = (0..dim).map(|_| F(if g.r.chance(0.5) { 10f64.powf(g.r.uni(0.0, 9.0)) } else { g.r.uni(-1.0, 1.0) })).collect();
                c.mean = o.shift.iter().map(|x| F(x.0 + g.r.uni(-1.0, 1.0))).collect();
            }
            n = 900;
            if g.r.chance(0.4) {
                // evaluations are not a multiple of the generations from the start
                o.faults.push((Trig::Call { n: g.r.below(40 * lam), count: 1 + g.r.below(2) * lam }, What::Nan));
                again = true;
            }
        }
        18 => {
            let t = 10f64.powf(g.r.uni(-14.0, 2.0));
            c.tol_fun = Some(F(t));
            c.tol_fun_rel = Some(F(t));
            c.tol_fun_hist = Some(F(t));
        }
        _ => {
            o.fun = Fun::Linear;
            g.no_tolerances(&mut c);
            c.tol_condition_cov = Some(F(10f64.powf(g.r.uni(1.0, 14.0))));
            n = 300;
        }
    }
    if let Some(f) = upset {
        o.faults.push(f);
    }
    // large dimensions and populations are expensive
    n = n.min((60_000 / (lam + (dim * dim / 4) as u64)).max(20));
    if modes > 0 {
        g.both_forms(&mut o);
    }
    if g.r.chance(0.08) {
        // any tolerance at all
        let t = Some(F(match g.r.below(6) {
            0 => 0.0,
            1 => f64::INFINITY,
            2 => 10f64.powf(g.r.uni(-320.0, -10.0)),
            3 => 10f64.powf(g.r.uni(1.0, 308.0)),
            _ => 10f64.powf(g.r.uni(0.0, 8.0)),
        }));
        match g.r.below(7) {
            0 | 1 => c.tol_fun = t,
            2 => c.tol_fun_rel = t,
            3 => c.tol_fun_hist = t,
            4 => c.tol_x = t,
            5 => c.tol_x_up = t,
            _ => c.tol_condition_cov = t,
        }
    }
    let mut past = g.r.chance(0.6) || again;
    let marathon = index % 192 == 97;
    if marathon {
        // beyond 20 000 generations of history and 100 000 generations overall
        p.scenario = "marathon".into();
        c = g.cfg(1 + (index / 192 % 2) as usize);
        c.lambda = Some(4);
        g.no_tolerances(&mut c);
        o = g.obj(c.mean.len());
        o.fun = *g.r.pick(&[Fun::Noise, Fun::Few, Fun::Constant, Fun::Steps]);
        o.form = Form::Struct;
        o.spin = 0;
        o.faults.clear();
        c.tol_stagnation = Some(*g.r.pick(&[1_000_000usize, 100_000, 19_000, 21_000, 2_500, 4_500]));
        past = true;
        n = if g.deep { 130_000 } else { 24_000 };
        if g.r.chance(0.35) {
            // everything changes when the history is already full
            o.fun = *g.r.pick(&[Fun::Noise, Fun::Few]);
            c.tol_fun = Some(F(10f64.powf(g.r.uni(-12.0, -1.0))));
            c.tol_fun_hist = Some(F(10f64.powf(g.r.uni(-12.0, -1.0))));
            let (a, b) = (g.r.range(19_900, 22_000), g.r.range(50, 2000));
            o.faults.push((Trig::Call { n: 4 * a, count: 4 * b }, What::Zero));
        } else if g.r.chance(0.5) {
            // the improvement since the first generation decides, until the end
            o.faults.push((Trig::Call { n: 0, count: 4 }, if c.maximize { What::NegHuge } else { What::Huge }));
            o.fun = *g.r.pick(&[Fun::Noise, Fun::Few]);
            c.tol_fun_rel = Some(F(10f64.powf(g.r.uni(-302.0, -297.0))));
            n = if g.deep { 50_000 } else { 20_600 };
        }
        if g.r.chance(0.5) {
            c.max_gens = Some(n as usize + 1);
        }
        let mut s = g.quiet();
        s.tick_budget = 40_000_000_000;
        p.phases.push(phase("run", s, vec![cm(c, o, vec![Op::Gens { n, par: false, past_end: past }], None)]));
        return;
    }
    let ops = match modes {
        0 | 1 => vec![Op::Gens { n, par: modes == 1, past_end: past }],
        _ => {
            let k = g.r.range(1, n);
            let mut v = vec![Op::Gens { n: k, par: false, past_end: past }, Op::Gens { n: n - k + 1, par: true, past_end: past }];
            if g.r.chance(0.3) {
                if c.max_gens.is_none() && c.max_evals.is_none() {
                    c.max_gens = Some(n as usize);
                }
                v.push(Op::Run);
            }
            v
        }
    };
    let s = if modes == 0 { g.quiet() } else { g.sched() };
    p.phases.push(phase("run", s, vec![cm(c, o, ops, None)]));
}

fn c09(g: &mut G, p: &mut Plan, big: u64, index: u64) {
    if index % 160 == 83 {
        // thousands of generations
        p.scenario = "refinement-marathon".into();
        let dim = g.r.range(1, 3) as usize;
        let mut c = g.cfg(dim);
        c.lambda = Some(g.r.range(4, 7) as usize);
        g.no_tolerances(&mut c);
        let mut o = g.obj(dim);
        o.fun = *g.r.pick(&[Fun::Noise, Fun::Noise, Fun::NoisySphere, Fun::Few]);
        if g.r.chance(0.85) {
            // converging to zero from far away: nothing is lost to rounding on the way
            let k = 10f64.powf(g.r.uni(60.0, 140.0));
            c.sigma.0 *= k;
            c.mean.iter_mut().for_each(|m| m.0 *= k);
            o.fun = *g.r.pick(&[Fun::Sphere, Fun::Sphere, Fun::Ellipsoid, Fun::Rotated]);
            o.shift = vec![F(0.0); dim];
            o.offset = F(0.0);
            o.scale = F(if c.maximize { -1.0 } else { 1.0 });
        }
        o.form = Form::Struct;
        o.spin = 0;
        let n = g.r.range(2000, if g.deep { 12_000 } else { 5000 });
        let mut s = g.quiet();
        s.tick_budget = 10_000_000_000;
        p.phases.push(phase("run", s, vec![cm(c, o, vec![Op::Gens { n, par: false, past_end: true }], None)]));
        return;
    }
    p.scenario = "refinement".into();
    let dim = g.dim();
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    if g.r.chance(0.5) {
        o = g.easy(dim);
        if c.maximize {
            o.scale = F(-o.scale.0);
        }
    }
    let modes = *g.r.pick(&[0u8, 0, 1, 2]);
    if modes > 0 {
        g.both_forms(&mut o);
    }
    let n = g.ngen(&c, 2 * big).max(12);
    let lam = g.lambda(&c);
    if g.r.chance(0.25) {
        let w = *g.r.pick(&[What::Inf, What::NegInf, What::Huge, What::Stuck, What::Nan, What::Panic, What::Zero]);
        let f = g.any_fault(w, n, lam);
        o.faults.push(f);
    }
    if g.r.chance(0.1) {
        c.con = Some(Con::Half { b: F(g.r.uni(0.0, 6.0)) });
    } else if g.r.chance(0.2) {
        // resampling that does not depend on where the points lie
        c.con = Some(match g.r.below(3) {
            0 => Con::Never,
            1 => Con::Flaky { p: F(g.r.uni(0.1, 0.9)), seed: g.r.next() },
            _ => Con::StuckThenOk { n: g.r.log_range(1, 30 * lam) },
        });
        if g.r.chance(0.7) {
            c.max_resamples = Some(Some(g.r.log_range(1, 12) as usize - 1));
        }
    }
    if g.r.chance(0.5) {
        g.no_tolerances(&mut c);
    }
    let ops = g.ops(n, modes);
    let s = g.sched();
    let pl = g.place();
    p.phases.push(phase("run", s, vec![cm(c, o, ops, pl)]));
}

fn c10(g: &mut G, p: &mut Plan, big: u64) {
    let dim = g.dim();
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    let modes = g.r.below(3) as u8;
    if modes > 0 {
        g.both_forms(&mut o);
    }
    let n = g.ngen(&c, big).max(4);
    let lam = g.lambda(&c);
    let kind = g.r.below(9);
    let mut unlimited_ok = true;
    let mut long = false;
    c.con = Some(match kind {
        0 | 1 => {
            p.scenario = "bounds".into();
            let mut lo: Vec<f64> = c.mean.iter().map(|m| m.0 - g.r.uni(0.3, 2.0) * c.sigma.0).collect();
            let mut hi: Vec<f64> = c.mean.iter().map(|m| m.0 + g.r.uni(0.3, 2.0) * c.sigma.0).collect();
            if dim > 5 {
                unlimited_ok = false;
            }
            let odd = g.r.chance(0.6);
            for i in 0..dim {
                match g.r.below(10) {
                    0 | 1 if odd => lo[i] = f64::NEG_INFINITY,
                    2 | 3 if odd => hi[i] = f64::INFINITY,
                    4 if odd => {
                        lo[i] = f64::NEG_INFINITY;
                        hi[i] = f64::INFINITY;
                    }
                    5 if odd => {
                        // too far away to be moved by a step: always on both bounds
                        c.mean[i].0 = c.sigma.0 * 1e22 * g.r.uni(-1.0, 1.0);
                        lo[i] = c.mean[i].0;
                        hi[i] = c.mean[i].0;
                    }
                    _ => (),
                }
            }
            // keep the optimum inside so that sampling inside stays likely
            o.shift = c.mean.clone();
            if !matches!(o.fun, Fun::Sphere | Fun::Ellipsoid | Fun::Cigar | Fun::Constant | Fun::Noise) {
                unlimited_ok = false;
            }
            if c.maximize {
                o.scale = F(-o.scale.0.abs());
            }
            Con::Bounds { lo: fv(&lo), hi: fv(&hi) }
        }
        2 => {
            p.scenario = "box".into();
            unlimited_ok = false;
            Con::Box { lo: F(g.r.uni(-5.0, 0.0)), hi: F(g.r.uni(0.5, 5.0)) }
        }
        3 => {
            p.scenario = "half-space".into();
            unlimited_ok = false;
            Con::Half { b: F(g.r.uni(-6.0, 6.0)) }
        }
        4 => {
            p.scenario = "shell".into();
            unlimited_ok = false;
            Con::Shell { r: F(g.r.uni(0.1, 6.0)) }
        }
        5 => {
            p.scenario = "stuck-then-ok".into();
            long = g.r.chance(0.1);
            Con::StuckThenOk { n: if long { g.r.log_range(1000 * lam, 20_000 * lam) } else { g.r.log_range(1, 30 * lam) } }
        }
        6 | 7 => {
            p.scenario = "flaky".into();
            Con::Flaky { p: F(g.r.uni(0.05, 0.95)), seed: g.r.next() }
        }
        _ => {
            p.scenario = "never".into();
            unlimited_ok = false;
            Con::Never
        }
    });
    c.max_resamples = match g.r.below(5) {
        0..=3 if long => Some(if g.r.chance(0.7) { None } else { Some(g.r.log_range(900, 10_000) as usize) }),
        0 if unlimited_ok => Some(None),
        0 | 1 => None,
        2 => Some(Some(0)),
        3 if unlimited_ok && g.r.chance(0.3) => Some(Some(usize::MAX)),
        _ => Some(Some(g.r.log_range(1, 60) as usize)),
    };
    let unlimited = matches!(c.max_resamples, Some(None) | Some(Some(usize::MAX)));
    if unlimited && matches!(c.con, Some(Con::Bounds { .. })) {
        // drifting objectives could leave the box for good
        c.max_gens = Some(n.min(25) as usize);
    }
    if g.r.chance(0.3) {
        let w = *g.r.pick(&[What::Nan, What::Panic, What::Inf, What::Huge]);
        let f = g.any_fault(w, n, lam);
        o.faults.push(f);
    }
    let past = !unlimited;
    let n = if past { n } else { n.min(25) };
    let mut ops = g.ops(n, modes);
    for x in ops.iter_mut() {
        if let Op::Gens { past_end, .. } = x {
            *past_end &= past;
        }
    }
    let s = g.sched();
    let pl = g.place();
    if let (Some(Con::Bounds { lo, hi }), true) = (c.con.clone(), g.r.chance(0.75)) {
        // the documented meaning of bounds, as a constraint of the user's
        o.faults.retain(|f| !matches!(f.1, What::Panic) && !matches!(f.0, Trig::Call { .. }));
        let mut c2 = c.clone();
        c2.con = Some(Con::Logged { lo, hi });
        let q = g.quiet();
        p.phases.push(phase("bounds", s, vec![cm(c, o.clone(), ops.clone(), pl)]));
        p.phases.push(phase("constraint", q, vec![cm(c2, o, ops, None)]));
        p.cmps.push(Cmp { a: 1, b: 0, actors: vec![(0, 0)], final_only: false, mask: all_but(&[10, 13, 15]), what: "bounds differ from the constraint they stand for".into() });
        return;
    }
    p.phases.push(phase("run", s, vec![cm(c, o, ops, pl)]));
}

fn c11(g: &mut G, p: &mut Plan, id: &str) {
    let long = id == "C11" && g.r.chance(0.2);
    let dim = if long && g.r.chance(0.4) { g.r.range(6, 17) } else { g.r.range(1, 5) } as usize;
    let mut r = g.rcfg(dim);
    let mut o = g.robj(dim);
    p.scenario = match r.strat {
        Strat::Local { .. } => "local".into(),
        Strat::Ipop { .. } => "ipop".into(),
        Strat::Bipop { .. } => "bipop".into(),
    };
    if g.r.chance(0.35) {
        let mut t = o.offset.0 + o.scale.0 * 10f64.powf(g.r.uni(-3.0, 1.5));
        if r.maximize {
            o.scale = F(-o.scale.0);
            t = o.offset.0 - (t - o.offset.0);
        }
        r.fun_target = Some(F(t));
    }
    let nan = if id == "C12" { 0.45 } else { 0.2 };
    if g.r.chance(nan) {
        let f = match g.r.below(4) {
            0 => (Trig::Call { n: g.r.log_range(1, 600) - 1, count: 1 }, What::Nan),
            1 => (Trig::Hash { seed: g.r.next(), one_in: g.r.log_range(20, 2000) }, What::Nan),
            2 => {
                let from = g.r.range(1, 5);
                (Trig::Steps { from, to: from + 1, one_in: g.r.log_range(1, 100), seed: g.r.next() }, What::Nan)
            }
            _ => (Trig::Region { above: F(g.r.uni(0.0, 5.0)) }, What::Nan),
        };
        o.faults.push(f);
    }
    if g.r.chance(0.3) {
        let mut w = g.odd_value();
        if w == What::Stuck {
            w = What::Inf;
        }
        let f = g.pure_fault(w, 60);
        o.faults.insert(0, f);
    }
    if g.r.chance(0.3) {
        g.other_ends(&mut r, &mut o);
    }
    if g.r.chance(0.1) {
        r.max_time_ns = Some(g.r.log_range(1, 10 * SEC));
        o.delay_ns = g.r.log_range(1000, 10 * MS);
    }
    if let (Some(b), true) = (r.base.as_mut(), g.r.chance(0.15)) {
        o.delay_ns = o.delay_ns.max(g.r.log_range(1000, 10 * MS));
        b.max_time_ns = Some(g.r.log_range(1, 1000) * o.delay_ns);
    }
    if long || id == "C12" && g.r.chance(0.1) {
        g.many_runs(&mut r);
    } else if g.r.chance(0.012) {
        r.dim = g.r.range(1, 2) as usize;
        o = g.robj(r.dim);
        g.breaking_runs(&mut r, &mut o);
    }
    let s = g.sched();
    let pl = g.place();
    p.phases.push(phase("run", s, vec![Actor { kind: Kind::Restart { r, obj: o }, place: pl }]));
}

fn c13(g: &mut G, p: &mut Plan, big: u64) {
    p.scenario = "together".into();
    let k = g.r.range(2, 4) as usize;
    let mut actors = vec![];
    let mut main_used = false;
    // some of them take turns on the main thread
    let turns = g.r.chance(0.45);
    let same_dim = if g.r.chance(0.3) { Some(g.r.range(1, 6) as usize) } else { None };
    let same_seed = if g.r.chance(0.2) { Some(g.r.next()) } else { None };
    for _ in 0..k {
        let place = if turns && g.r.chance(0.8) {
            None
        } else if !main_used && g.r.chance(0.5) {
            main_used = true;
            None
        } else if g.r.chance(0.6) {
            Some(0)
        } else {
            Some(g.r.range(1, 4) as usize)
        };
        if g.r.chance(0.2) {
            let dim = same_dim.unwrap_or(g.r.range(1, 3) as usize).min(3);
            let mut r = g.rcfg(dim);
            r.print = false;
            if same_seed.is_some() {
                r.seed = same_seed;
            }
            r.max_evals = Some(r.max_evals.unwrap_or(400).min(600));
            r.max_evals_per_run = Some(r.max_evals_per_run.unwrap_or(300).min(300));
            let mut o = g.robj(dim);
            pure_faults(g, &mut o, 8);
            o.faults.retain(|f| !matches!(f.1, What::Panic));
            o.delay_ns = 0;
            actors.push(Actor { kind: Kind::Restart { r, obj: o }, place });
            continue;
        }
        let dim = if g.r.chance(0.1) { g.r.range(7, 20) } else { g.r.range(1, 6) } as usize;
        let dim = same_dim.unwrap_or(dim);
        let mut c = g.cfg(dim);
        if same_seed.is_some() {
            c.seed = same_seed;
        }
        let mut o = g.obj(dim);
        let par = g.r.chance(0.7);
        if par {
            g.both_forms(&mut o);
        }
        if g.r.chance(0.2) {
            // the smallest steps no longer change some coordinates
            let e = c.sigma.0 * 10f64.powf(g.r.uni(12.0, 17.0));
            for m in c.mean.iter_mut() {
                if g.r.chance(0.7) {
                    m.0 *= e;
                }
            }
        }
        let lam = g.lambda(&c);
        pure_faults(g, &mut o, lam);
        if g.r.chance(0.25) {
            o.nested = Some((g.r.range(3, 40), g.r.chance(0.5)));
        }
        if g.r.chance(0.15) {
            o.nested_join = true;
        }
        if g.r.chance(0.3) {
            c.con = Some(Con::Half { b: F(g.r.uni(0.0, 6.0)) });
        }
        if g.r.chance(0.3) {
            c.plot_gap = Some(g.r.range(1, 40) as usize);
        }
        let n = g.ngen(&c, big / 4);
        let ops = g.ops(n, par as u8);
        actors.push(cm(c, o, ops, place));
    }
    for (i, a) in actors.iter().enumerate() {
        let mut a = a.clone();
        if a.place == Some(0) {
            a.place = None;
        }
        let s = g.quiet();
        p.phases.push(phase(&format!("actor {} alone", i), s, vec![a]));
    }
    let s = g.sched();
    let mut together = phase("all together", s, actors);
    if turns {
        together.turns = Some(g.r.next());
    }
    p.phases.push(together);
    for i in 0..k {
        p.cmps.push(Cmp { a: i, b: k, actors: vec![(0, i)], final_only: false, mask: all_but(&[13, 15]), what: "an instance behaved differently next to others".into() });
    }
}

/// Several instances print at the same time; alone, each of them prints the same lines.
fn printing_together(g: &mut G, p: &mut Plan, big: u64) {
    p.scenario = "printing-together".into();
    let k = g.r.range(2, 4) as usize;
    let mut actors = vec![];
    let mut main_used = false;
    for _ in 0..k {
        let place = if !main_used && g.r.chance(0.5) {
            main_used = true;
            None
        } else if g.r.chance(0.6) {
            Some(0)
        } else {
            Some(g.r.range(1, 4) as usize)
        };
        let dim = g.r.range(1, 5) as usize;
        if g.r.chance(0.25) {
            let mut r = g.rcfg(dim);
            r.print = true;
            r.seed = Some(g.r.next());
            r.max_evals = Some(r.max_evals.unwrap_or(300).min(400));
            r.max_evals_per_run = Some(r.max_evals_per_run.unwrap_or(200).min(200));
            r.max_time_ns = None;
            let mut o = g.robj(dim);
            o.delay_ns = 0;
            o.faults.clear();
            actors.push(Actor { kind: Kind::Restart { r, obj: o }, place });
            continue;
        }
        let mut c = g.cfg(dim);
        let mut o = g.obj(dim);
        let par = g.r.chance(0.4);
        if par {
            g.both_forms(&mut o);
        }
        let lam = g.lambda(&c);
        c.print_gap = Some(g.r.log_range(1, 10 * lam) as usize);
        let n = g.ngen(&c, big / 6);
        let mut ops = vec![];
        if g.r.chance(0.5) {
            g.limit(&mut c, n);
            ops.push(if par { Op::RunPar } else { Op::Run });
        } else {
            for x in g.ops(n, par as u8) {
                ops.push(x);
                while g.r.chance(0.4) {
                    ops.push(g.r.pick(&[Op::PrintInitial, Op::PrintInfo, Op::PrintInfo, Op::PrintFinal]).clone());
                }
            }
        }
        actors.push(cm(c, o, ops, place));
    }
    for (i, a) in actors.iter().enumerate() {
        let mut a = a.clone();
        if a.place == Some(0) {
            a.place = None;
        }
        let s = g.quiet();
        p.phases.push(phase(&format!("actor {} alone", i), s, vec![a]));
    }
    let mut s = g.sched();
    if g.r.chance(0.4) {
        g.soft_stdout(&mut s);
    }
    p.phases.push(phase("all together", s, actors));
    for i in 0..k {
        p.cmps.push(Cmp { a: i, b: k, actors: vec![(0, i)], final_only: false, mask: all_but(&[13, 15]), what: "an instance behaved differently while others were printing".into() });
    }
    p.lines.push(((0..k).collect(), k));
}

fn c14(g: &mut G, p: &mut Plan, big: u64) {
    if g.r.chance(0.2) {
        return printing_together(g, p, big);
    }
    let dim = if g.r.chance(0.8) { g.r.range(1, 4) as usize } else { g.r.range(5, 9) as usize };
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    let par = g.r.chance(0.3);
    if par {
        g.both_forms(&mut o);
    }
    let lam = g.lambda(&c);
    let n = g.ngen(&c, big / 2);
    if g.r.chance(0.4) {
        let w = *g.r.pick(&[What::Nan, What::Inf, What::Huge, What::NegInf, What::Tiny, What::NegZero]);
        let f = g.pure_fault(w, 8 * lam);
        o.faults.push(f);
    }
    let mut ops = vec![];
    if g.r.chance(0.4) {
        g.limit(&mut c, n);
        ops.push(if par { Op::RunPar } else { Op::Run });
        if g.r.chance(0.3) {
            ops.push(if par { Op::NextPar } else { Op::Next });
            ops.push(if par { Op::RunPar } else { Op::Run });
        }
    } else {
        ops = g.ops(n, par as u8);
    }
    if g.r.chance(0.3) {
        let b = c.con.take();
        c.con = b.or(Some(Con::Half { b: F(g.r.uni(0.0, 6.0)) }));
    }
    let mut watched = c.clone();
    watched.print_gap = Some(g.r.log_range(1, 20 * lam) as usize);
    if g.r.chance(0.2) {
        watched.print_gap = Some(if g.r.chance(0.3) { usize::MAX } else { 0 });
    }
    if g.r.chance(0.6) {
        watched.plot_gap = Some(g.r.log_range(1, 10 * lam) as usize);
    }
    let mut wops = vec![];
    for x in &ops {
        wops.push(x.clone());
        // break loops into pieces with observers in between
        while g.r.chance(0.35) {
            let ob = match g.r.below(6) {
                0 => Op::PrintInitial,
                1 | 2 => Op::PrintInfo,
                3 => Op::PrintFinal,
                _ => Op::AddPlotPoint,
            };
            wops.push(ob);
        }
    }
    if g.r.chance(0.3) {
        wops.insert(0, Op::PrintInitial);
    }
    let (s1, s2) = (g.quiet(), g.quiet());
    let mask = all_but(&[13, 14, 15]) | if par { 0 } else { bit(&[15]) };
    match g.r.below(4) {
        0 => {
            p.scenario = "soft-stdout-faults".into();
            let mut s3 = s2.clone();
            g.soft_stdout(&mut s3);
            p.phases.push(phase("unobserved", s1, vec![cm(c, o.clone(), ops, None)]));
            p.phases.push(phase("observed", s2, vec![cm(watched.clone(), o.clone(), wops.clone(), None)]));
            p.phases.push(phase("observed, short writes and EINTR on stdout", s3, vec![cm(watched, o, wops, None)]));
            p.cmps.push(Cmp { a: 0, b: 1, actors: vec![(0, 0)], final_only: false, mask, what: "printing or plotting changed the run".into() });
            p.cmps.push(Cmp { a: 1, b: 2, actors: vec![(0, 0)], final_only: false, mask, what: "short writes on stdout changed the run".into() });
        }
        1 => {
            p.scenario = "printing-next-to-others".into();
            // a silent actor and a printing one share stdout
            let mut others = vec![cm(watched, o.clone(), wops, None)];
            let s = g.sched();
            let d2 = g.r.range(1, 4) as usize;
            let c2 = g.cfg(d2);
            let o2 = g.obj(d2);
            let n2 = g.ngen(&c2, 300);
            let ops2 = g.ops(n2, 0);
            others.push(cm(c2, o2, ops2, Some(0)));
            p.phases.push(phase("unobserved", s1, vec![cm(c, o, ops, None)]));
            p.phases.push(phase("observed", s, others));
            p.cmps.push(Cmp { a: 0, b: 1, actors: vec![(0, 0)], final_only: false, mask, what: "printing or plotting changed the run".into() });
        }
        _ => {
            p.scenario = "observers".into();
            let s = g.sched();
            p.phases.push(phase("unobserved", s1, vec![cm(c, o.clone(), ops, None)]));
            p.phases.push(phase("observed", s, vec![cm(watched, o, wops, None)]));
            p.cmps.push(Cmp { a: 0, b: 1, actors: vec![(0, 0)], final_only: false, mask, what: "printing or plotting changed the run".into() });
        }
    }
}

fn c15(g: &mut G, p: &mut Plan) {
    let dim = g.r.range(1, 4) as usize;
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    o.form = Form::Struct;
    c.plot_gap = Some(g.r.log_range(1, 60) as usize);
    let lam = g.lambda(&c);
    let n = g.r.log_range(1, 40);
    p.scenario = "save".into();
    let mut s = g.quiet();
    // which write calls happen is counted over the whole run
    match g.r.below(7) {
        0 => s.disk.capacity = Some(g.r.log_range(1, 120_000)),
        1 => {
            s.disk.max_write = Some(g.r.log_range(1, 5000));
            s.disk.eintr_every = if g.r.chance(0.5) { Some(g.r.range(2, 9)) } else { None };
        }
        2 => {
            for _ in 0..g.r.range(1, 3) {
                let f = *g.r.pick(&[IoFault::Enospc, IoFault::Eio, IoFault::Edquot, IoFault::Short(1), IoFault::Eintr, IoFault::Ebadf]);
                let n = g.r.below(8);
                s.disk.at.push((IoOp::Write, n, f));
            }
        }
        3 => {
            let f = *g.r.pick(&[IoFault::Enospc, IoFault::Eacces, IoFault::Emfile, IoFault::Eio, IoFault::Eintr]);
            let n = g.r.below(3);
            s.disk.at.push((IoOp::Open, n, f));
        }
        4 => {
            let f = *g.r.pick(&[IoFault::Enospc, IoFault::Eacces, IoFault::Eio]);
            let n = g.r.below(3);
            s.disk.at.push((IoOp::Mkdir, n, f));
        }
        5 => {
            let f = *g.r.pick(&[IoFault::Enospc, IoFault::Eio, IoFault::Edquot]);
            let n = g.r.log_range(1, 40) - 1;
            s.disk.at.push((IoOp::Write, n, f));
        }
        _ => {}
    }
    if g.r.chance(0.25) {
        let w = *g.r.pick(&[What::Nan, What::Inf, What::Huge, What::NegHuge, What::NegInf, What::Tiny, What::Panic]);
        let f = g.any_fault(w, n, lam);
        o.faults.push(f);
    }
    let mut ops = vec![];
    if g.r.chance(0.15) {
        ops.push(Op::SavePlot { dirs: g.r.chance(0.5), sub: g.r.below(4) as u32 });
    }
    let k = g.r.range(1, 3);
    for _ in 0..k {
        ops.push(Op::Gens { n: (n / k).max(1), par: false, past_end: true });
        if g.r.chance(0.2) {
            ops.push(Op::AddPlotPoint);
        }
        if g.r.chance(0.1) {
            ops.push(Op::ClearPlot);
        }
        let sub = g.r.below(4) as u32;
        let dirs = g.r.chance(0.5);
        ops.push(Op::SavePlot { dirs, sub });
    }
    p.phases.push(phase("run", s, vec![cm(c, o, ops, None)]));
}

fn c16(g: &mut G, p: &mut Plan, big: u64) {
    p.scenario = "recording".into();
    let dim = g.r.range(1, 8) as usize;
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    let modes = g.r.below(3) as u8;
    if modes > 0 {
        g.both_forms(&mut o);
    }
    let lam = g.lambda(&c);
    let n = g.ngen(&c, big);
    c.plot_gap = match g.r.below(20) {
        0 => None,
        1 | 2 => Some(0),
        // only the first and the last generation
        3 => Some(usize::MAX - g.r.below(3) as usize * 1000),
        _ => Some(g.r.log_range(1, 12 * lam) as usize),
    };
    for _ in 0..g.r.below(3) {
        let w = match g.r.below(5) {
            0 => What::Nan,
            1 => What::Panic,
            _ => g.odd_value(),
        };
        let f = g.any_fault(w, n, lam);
        o.faults.push(f);
    }
    let base = g.ops(n, modes);
    let mut ops = vec![];
    let busy = g.r.chance(0.5);
    for x in base {
        if busy && g.r.chance(0.4) {
            ops.push(Op::AddPlotPoint);
        }
        if busy && g.r.chance(0.1) {
            ops.push(Op::ClearPlot);
        }
        ops.push(x);
    }
    if g.r.chance(0.2) {
        g.limit(&mut c, n);
        ops.push(if modes == 1 { Op::RunPar } else { Op::Run });
    }
    let s = g.sched();
    let pl = g.place();
    p.phases.push(phase("run", s, vec![cm(c, o, ops, pl)]));
}

fn c17(g: &mut G, p: &mut Plan, big: u64) {
    let dim = g.dim();
    let mut c = g.cfg(dim);
    let mut o = g.obj(dim);
    let lam = g.lambda(&c);
    let mut n = g.ngen(&c, 2 * big).max(20);
    if g.r.chance(0.6) {
        g.no_tolerances(&mut c);
    }
    match g.r.below(9) {
        0 => {
            p.scenario = "divergence".into();
            o.fun = Fun::Linear;
            c.tol_x_up = Some(F(f64::INFINITY));
            n = 400;
        }
        1 => {
            p.scenario = "collapse".into();
            g.no_tolerances(&mut c);
            o = g.easy(dim);
            if c.maximize {
                o.scale = F(-o.scale.0)
            }
            n = 700;
        }
        2 => {
            p.scenario = "extreme-values".into();
            for _ in 0..g.r.range(1, 4) {
                let w = g.odd_value();
                let f = g.any_fault(w, n, lam);
                o.faults.push(f);
            }
        }
        3 => {
            p.scenario = "extreme-start".into();
            c.sigma = F(10f64.powf(g.r.uni(-150.0, 150.0)));
            if g.r.chance(0.5) {
                let e = g.r.uni(-10.0, 100.0);
                for m in c.mean.iter_mut() {
                    *m = F(m.0 * 10f64.powf(e));
                }
            }
        }
        4 => {
            p.scenario = "ill-conditioned".into();
            o.fun = *g.r.pick(&[Fun::Ellipsoid, Fun::Cigar, Fun::DiffPow, Fun::Sharp]);
            o.scale = F(10f64.powf(g.r.uni(-100.0, 100.0)));
            n = 400;
        }
        5 => {
            p.scenario = "noise".into();
            o.fun = *g.r.pick(&[Fun::Noise, Fun::Few, Fun::Constant, Fun::Steps]);
        }
        6 => {
            return breakdown(g, p);
        }
        _ => p.scenario = "ordinary".into(),
    }
    let cost = lam + (dim * dim / 8) as u64;
    n = n.min((3 * big / cost).max(20));
    let modes = *g.r.pick(&[0u8, 0, 1, 2]);
    if modes > 0 {
        g.both_forms(&mut o);
    }
    if g.r.chance(0.2) {
        c.con = Some(Con::Half { b: F(g.r.uni(0.0, 6.0)) });
    }
    let ops = if g.r.chance(0.5) { vec![Op::Gens { n, par: modes == 1, past_end: true }] } else { g.ops(n, modes) };
    let s = g.sched();
    p.phases.push(phase("run", s, vec![cm(c, o, ops, None)]));
}

fn c18(g: &mut G, p: &mut Plan, big: u64) {
    match g.r.below(11) {
        10 => infinities(g, p, true),
        0..=1 => {
            p.scenario = "restarts-end".into();
            let dim = g.r.range(1, 4) as usize;
            let mut r = g.rcfg(dim);
            let mut o = g.robj(dim);
            r.print = g.r.chance(0.5);
            pure_faults(g, &mut o, 8);
            o.faults.retain(|f| !matches!(f.1, What::Panic));
            let s = g.sched();
            let pl = g.place();
            p.phases.push(phase("run", s, vec![Actor { kind: Kind::Restart { r, obj: o }, place: pl }]));
        }
        2 => {
            p.scenario = "fmin-ends".into();
            let a = func_actor(g);
            let s = g.sched();
            p.phases.push(phase("run", s, vec![a]));
        }
        3 => {
            p.scenario = "default-tolerances-end".into();
            let dim = g.r.range(1, 5) as usize;
            let mut c = g.cfg(dim);
            let mut o = g.easy(dim);
            o.fun = *g.r.pick(&[Fun::Sphere, Fun::Ellipsoid, Fun::Rotated, Fun::Constant, Fun::Linear]);
            c.lambda = None;
            c.cm = F(1.0);
            c.weights = *g.r.pick(&[W::Negative, W::Positive]);
            let par = g.r.chance(0.5);
            if par {
                g.both_forms(&mut o);
            }
            if c.maximize && o.fun != Fun::Linear {
                o.scale = F(-o.scale.0);
            }
            let s = g.sched();
            p.phases.push(phase("run", s, vec![cm(c, o, vec![if par { Op::RunPar } else { Op::Run }], None)]));
        }
        _ => {
            p.scenario = "limits-end".into();
            let k = g.r.range(1, 3);
            let mut actors = vec![];
            for i in 0..k {
                let dim = g.dim().min(8);
                let mut c = g.cfg(dim);
                let mut o = g.obj(dim);
                let par = g.r.chance(0.7);
                if par {
                    g.both_forms(&mut o);
                }
                let lam = g.lambda(&c);
                let n = g.ngen(&c, big / k);
                for _ in 0..g.r.below(3) {
                    let w = match g.r.below(7) {
                        0 => What::Nan,
                        1 => What::Panic,
                        2 => g.time_fault(),
                        _ => g.odd_value(),
                    };
                    let f = g.any_fault(w, n, lam);
                    o.faults.push(f);
                }
                if g.r.chance(0.5) {
                    g.no_tolerances(&mut c);
                }
                g.limit(&mut c, n);
                if g.r.chance(0.35) {
                    o.delay_ns = g.r.log_range(1000, 10 * MS);
                    let est = o.delay_ns / 2 * lam * n;
                    c.max_time_ns = Some(match g.r.below(6) {
                        0 => 0,
                        1 => 1,
                        _ => g.r.range(1, est.max(2)),
                    });
                    if g.r.chance(0.6) {
                        (c.max_gens, c.max_evals) = (None, None);
                    }
                }
                if g.r.chance(0.25) {
                    c.con = Some(Con::Never);
                    c.max_resamples = Some(Some(g.r.below(20) as usize));
                } else if g.r.chance(0.2) {
                    c.con = Some(Con::StuckThenOk { n: g.r.log_range(1, 200) });
                    c.max_resamples = Some(None);
                }
                let mut ops = vec![];
                if g.r.chance(0.6) {
                    ops.push(if par { Op::RunPar } else { Op::Run });
                    if g.r.chance(0.4) {
                        ops.push(if par { Op::RunPar } else { Op::Run });
                    }
                } else {
                    ops = g.ops(n, if par { 2 } else { 0 });
                }
                if g.r.chance(0.15) {
                    o.nested = Some((g.r.range(5, 50), true));
                }
                let place = if i == 0 { g.place() } else { Some(g.r.below(3) as usize) };
                actors.push(cm(c, o, ops, place));
            }
            let s = g.sched();
            p.phases.push(phase("run", s, actors));
        }
    }
}

fn c19(g: &mut G, p: &mut Plan, big: u64) {
    let s = g.sched();
    match g.r.below(6) {
        0 => {
            p.scenario = "restarter-ownership".into();
            let dim = g.r.range(1, 4) as usize;
            let mut r = g.rcfg(dim);
            let mut o = g.robj(dim);
            r.print = false;
            if g.r.chance(0.4) {
                g.other_ends(&mut r, &mut o);
            }
            if g.r.chance(0.2) {
                g.many_runs(&mut r);
            } else if g.r.chance(0.06) {
                r.dim = g.r.range(1, 2) as usize;
                o = g.robj(r.dim);
                g.breaking_runs(&mut r, &mut o);
            }
            if r.api == RApi::Reuse && g.r.chance(0.5) {
                o.form = Form::MutRef;
            }
            if g.r.chance(0.4) {
                let w = *g.r.pick(&[What::Nan, What::Panic]);
                let n = g.r.log_range(1, 600) - 1;
                o.faults.push((Trig::Call { n, count: 1 }, w));
            }
            let pl = g.place();
            p.phases.push(phase("run", s, vec![Actor { kind: Kind::Restart { r, obj: o }, place: pl }]));
        }
        1 => {
            p.scenario = "fmin-ownership".into();
            let mut a = func_actor(g);
            if let Kind::Func { obj, .. } = &mut a.kind {
                if g.r.chance(0.3) {
                    let n = g.r.log_range(1, 300);
                    obj.faults.push((Trig::Call { n, count: 1 }, What::Panic));
                }
            }
            p.phases.push(phase("run", s, vec![a]));
        }
        _ => {
            p.scenario = "instance-ownership".into();
            let dim = g.dim().min(8);
            let mut c = g.cfg(dim);
            let mut o = g.obj(dim);
            o.form = *g.r.pick(&[Form::Struct, Form::Struct, Form::Closure, Form::BoxDyn, Form::Scaled, Form::MutRef, Form::FnRef]);
            let modes = g.r.below(3) as u8;
            if modes == 2 && o.form == Form::BoxDyn {
                o.form = Form::Struct;
            }
            let lam = g.lambda(&c);
            let n = g.ngen(&c, big / 2);
            for _ in 0..g.r.below(3) {
                let w = match g.r.below(5) {
                    0 | 1 => What::Panic,
                    2 | 3 => What::Nan,
                    _ => g.odd_value(),
                };
                let f = g.any_fault(w, n, lam);
                o.faults.push(f);
            }
            if g.r.chance(0.3) {
                c.plot_gap = Some(20);
            }
            let mut ops = g.ops(n, modes);
            if g.r.chance(0.2) {
                g.limit(&mut c, n);
                ops.push(if modes == 1 { Op::RunPar } else { Op::Run });
            }
            if g.r.chance(0.6) {
                ops.push(Op::IntoObjective);
            }
            let pl = g.place();
            p.phases.push(phase("run", s, vec![cm(c, o, ops, pl)]));
        }
    }
}

fn c20(g: &mut G, p: &mut Plan, big: u64) {
    let mask = all_but(&[13, 14, 15]);
    if g.r.chance(0.25) {
        p.scenario = "restarts-mirrored".into();
        let dim = g.r.range(1, 4) as usize;
        let mut r = g.rcfg(dim);
        r.print = false;
        r.maximize = false;
        let mut o = g.robj(dim);
        if g.r.chance(0.4) {
            r.fun_target = Some(F(o.offset.0 + o.scale.0 * 10f64.powf(g.r.uni(-3.0, 1.5))));
        }
        if g.r.chance(0.4) {
            let w = *g.r.pick(&[What::Inf, What::NegInf, What::Huge, What::NegHuge, What::Nan]);
            let f = g.pure_fault(w, 80);
            o.faults.push(f);
        }
        let mut r2 = r.clone();
        r2.maximize = true;
        r2.fun_target = r.fun_target.map(|t| F(-t.0));
        let mut o2 = o.clone();
        o2.negate = true;
        let (s1, s2) = (g.quiet(), g.sched());
        p.phases.push(phase("minimise f", s1, vec![Actor { kind: Kind::Restart { r, obj: o }, place: None }]));
        p.phases.push(phase("maximise -f", s2, vec![Actor { kind: Kind::Restart { r: r2, obj: o2 }, place: None }]));
    } else if g.r.chance(0.12) {
        p.scenario = "functions-mirrored".into();
        let mut a = func_actor(g);
        a.place = None;
        if let Kind::Func { max, obj, .. } = &mut a.kind {
            if std::mem::replace(max, false) {
                obj.scale = F(-obj.scale.0);
            }
            if g.r.chance(0.5) {
                obj.drift = F(0.0);
                let w = *g.r.pick(&[What::Inf, What::Huge, What::Stuck, What::Zero]);
                let f = g.pure_fault(w, 60);
                obj.faults.push(f);
            }
        }
        let mut b = a.clone();
        if let Kind::Func { max, obj, .. } = &mut b.kind {
            *max = true;
            obj.negate = true;
        }
        let (s1, mut s2) = (g.quiet(), g.quiet());
        s2.entropy_seed = s1.entropy_seed;
        p.phases.push(phase("minimise f", s1, vec![a]));
        p.phases.push(phase("maximise -f", s2, vec![b]));
    } else {
        p.scenario = "mirrored".into();
        let dim = g.dim();
        let mut c = g.cfg(dim);
        c.maximize = false;
        let mut o = g.obj(dim);
        let lam = g.lambda(&c);
        let n = g.ngen(&c, big);
        if g.r.chance(0.4) {
            c.fun_target = Some(F(o.offset.0 + o.scale.0 * 10f64.powf(g.r.uni(-6.0, 1.5))));
        }
        if g.r.chance(0.5) {
            let w = *g.r.pick(&[What::Inf, What::NegInf, What::Huge, What::NegHuge, What::Nan, What::Stuck, What::Zero, What::NegZero]);
            let f = if w == What::Stuck { g.any_fault(w, n, lam) } else { g.pure_fault(w, 8 * lam) };
            o.faults.push(f);
        }
        if g.r.chance(0.3) {
            let t = 10f64.powf(g.r.uni(-10.0, 1.0));
            c.tol_fun = Some(F(t));
            c.tol_fun_hist = Some(F(t));
            c.tol_fun_rel = Some(F(10f64.powf(g.r.uni(-10.0, -1.0))));
        }
        if g.r.chance(0.2) {
            c.tol_stagnation = Some(g.r.log_range(1, 60) as usize);
        }
        let mut ops = g.ops(n, 0);
        if g.r.chance(0.3) {
            g.limit(&mut c, n);
            ops = vec![Op::Run];
        }
        let mut c2 = c.clone();
        c2.maximize = true;
        c2.fun_target = c.fun_target.map(|t| F(-t.0));
        let mut o2 = o.clone();
        o2.negate = true;
        let (s1, s2) = (g.quiet(), g.quiet());
        p.phases.push(phase("minimise f", s1, vec![cm(c, o, ops.clone(), None)]));
        p.phases.push(phase("maximise -f", s2, vec![cm(c2, o2, ops, None)]));
    }
    p.cmps.push(Cmp { a: 0, b: 1, actors: vec![(0, 0)], final_only: false, mask, what: "minimising f and maximising -f are not mirror images".into() });
}
