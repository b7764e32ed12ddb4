//! Drives the public API of the library step by step and records the history.

use crate::obj::{Core, Injected, SimCon};
use cmaes::objective_function::Scale;
use cmaes::restart::{Local, RestartOptions, RestartStrategy, BIPOP, IPOP};
use cmaes::{
    CMAESOptions, DVector, Individual, Mode, ObjectiveFunction, ParallelObjectiveFunction,
    PlotOptions, TerminationData, TerminationReason, Weights, CMAES,
};
use model::hist::*;
use model::plan::*;
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

pub fn classify(p: &Box<dyn Any + Send>) -> (bool, String) {
    if p.is::<Injected>() {
        (true, String::new())
    } else if let Some(s) = p.downcast_ref::<&str>() {
        (false, s.to_string())
    } else if let Some(s) = p.downcast_ref::<String>() {
        (false, s.clone())
    } else {
        (false, "panic with an unknown payload".into())
    }
}

/// The largest value stands for the largest duration there is.
fn duration(ns: u64) -> Duration {
    if ns == u64::MAX {
        Duration::MAX
    } else {
        Duration::from_nanos(ns)
    }
}
fn vecf(v: &[F]) -> Vec<f64> {
    v.iter().map(|x| x.0).collect()
}
fn ind(i: Option<&Individual>) -> Option<(Vec<f64>, f64)> {
    i.map(|i| (i.point.as_slice().to_vec(), i.value))
}
fn reason(r: &TerminationReason) -> R {
    match r {
        TerminationReason::MaxFunctionEvals => R::MaxFunctionEvals,
        TerminationReason::MaxGenerations => R::MaxGenerations,
        TerminationReason::MaxTime => R::MaxTime,
        TerminationReason::FunTarget => R::FunTarget,
        TerminationReason::TolFun => R::TolFun,
        TerminationReason::TolFunRel => R::TolFunRel,
        TerminationReason::TolFunHist => R::TolFunHist,
        TerminationReason::TolX => R::TolX,
        TerminationReason::TolStagnation => R::TolStagnation,
        TerminationReason::TolXUp => R::TolXUp,
        TerminationReason::NoEffectAxis => R::NoEffectAxis,
        TerminationReason::NoEffectCoord => R::NoEffectCoord,
        TerminationReason::TolConditionCov => R::TolConditionCov,
        TerminationReason::InvalidFunctionValue => R::InvalidFunctionValue,
        TerminationReason::PosDefCov => R::PosDefCov,
    }
}
fn term(t: &TerminationData) -> Term {
    Term {
        reasons: t.reasons.iter().map(reason).collect(),
        cur: ind(t.current_best.as_ref()),
        best: ind(t.overall_best.as_ref()),
        mean: t.final_mean.as_slice().to_vec(),
    }
}

pub fn options(actor: usize, c: &Cfg) -> CMAESOptions {
    let mut o = CMAESOptions::new(vecf(&c.mean), c.sigma.0)
        .mode(if c.maximize { Mode::Maximize } else { Mode::Minimize })
        .weights(match c.weights {
            W::Positive => Weights::Positive,
            W::Negative => Weights::Negative,
            W::Uniform => Weights::Uniform,
        })
        .parallel_update(c.parallel_update)
        .cm(c.cm.0);
    if let Some(l) = c.lambda {
        o = o.population_size(l);
    }
    match &c.con {
        None => {}
        Some(Con::Bounds { lo, hi }) => o = o.bounds(vecf(lo), vecf(hi)),
        Some(con) => o = o.constraints(Box::new(SimCon { actor, con: con.clone() })),
    }
    if let Some(m) = c.max_resamples {
        o = o.max_resamples(m);
    }
    if let Some(x) = c.max_evals {
        o = o.max_function_evals(x);
    }
    if let Some(x) = c.max_gens {
        o = o.max_generations(x);
    }
    if let Some(x) = c.max_time_ns {
        o = o.max_time(duration(x));
    }
    if let Some(x) = c.fun_target {
        o = o.fun_target(x.0);
    }
    if let Some(x) = c.tol_fun {
        o = o.tol_fun(x.0);
    }
    if let Some(x) = c.tol_fun_rel {
        o.tol_fun_rel = x.0;
    }
    if let Some(x) = c.tol_fun_hist {
        o.tol_fun_hist = x.0;
    }
    if let Some(x) = c.tol_x {
        o = o.tol_x(x.0);
    }
    if let Some(x) = c.tol_stagnation {
        o = o.tol_stagnation(x);
    }
    if let Some(x) = c.tol_x_up {
        o = o.tol_x_up(x.0);
    }
    if let Some(x) = c.tol_condition_cov {
        o = o.tol_condition_cov(x.0);
    }
    if let Some(x) = c.seed {
        o = o.seed(x);
    }
    if let Some(g) = c.plot_gap {
        o = o.enable_plot(PlotOptions::new(g, g % 2 == 1));
    }
    if let Some(g) = c.print_gap {
        o = o.enable_printing(g);
    }
    o
}

fn snap<T>(c: &CMAES<T>, debug: bool) -> Snap {
    Snap {
        mean: c.mean().as_slice().to_vec(),
        sigma: c.sigma(),
        cov: c.covariance_matrix().as_slice().to_vec(),
        eig: c.eigenvalues().as_slice().to_vec(),
        axis_ratio: c.axis_ratio(),
        gen: c.generation(),
        fevals: c.function_evals(),
        cur: ind(c.current_best_individual()),
        best: ind(c.overall_best_individual()),
        elapsed_ns: c.elapsed().as_nanos() as u64,
        since_ns: c.time_created().elapsed().as_nanos() as u64,
        plot_len: c.get_plot().map(|p| p.len()),
        plot_debug: if debug { c.get_plot().map(|p| format!("{:?}", p)) } else { None },
    }
}

fn params<T>(c: &CMAES<T>) -> Params {
    let p = c.parameters();
    Params {
        dim: p.dim(),
        lambda: p.lambda(),
        mu: p.mu(),
        mu_eff: p.mu_eff(),
        weights: p.weights().as_slice().to_vec(),
        cc: p.cc(),
        c1: p.c1(),
        cs: p.cs(),
        cmu: p.cmu(),
        cm: p.cm(),
        damp_s: p.damp_s(),
        sigma0: p.initial_sigma(),
        seed: p.seed(),
        maximize: p.mode() == Mode::Maximize,
        max_evals: p.max_function_evals(),
        max_gens: p.max_generations(),
        max_time_ns: p.max_time().map(|d| d.as_nanos().min(u64::MAX as u128) as u64),
        fun_target: p.fun_target(),
        tol_fun: p.tol_fun(),
        tol_fun_rel: p.tol_fun_rel(),
        tol_fun_hist: p.tol_fun_hist(),
        tol_x: p.tol_x(),
        tol_stagnation: p.tol_stagnation(),
        tol_x_up: p.tol_x_up(),
        tol_condition_cov: p.tol_condition_cov(),
    }
}

/// Uniform view of CMAES<F> whatever traits F implements.
trait Inst {
    fn next(&mut self, par: bool) -> Option<TerminationData>;
    fn run(&mut self, par: bool) -> TerminationData;
    fn snap(&self, debug: bool) -> Snap;
    fn params(&self) -> Params;
    fn print(&mut self, which: u8, reasons: &[TerminationReason]);
    fn add_plot(&mut self);
    fn clear_plot(&mut self);
    fn save(&self, path: &str, dirs: bool) -> Option<Result<(), String>>;
    fn into_calls(self: Box<Self>) -> Option<u64>;
}

struct Both<F> {
    c: CMAES<F>,
    calls: fn(F) -> Option<u64>,
}
struct Seq<F>(CMAES<F>);
struct Par<F>(CMAES<F>);

macro_rules! common {
    ($s:ident, $c:expr) => {
        fn snap(&self, debug: bool) -> Snap {
            let $s = self;
            snap(&$c, debug)
        }
        fn params(&self) -> Params {
            let $s = self;
            params(&$c)
        }
        fn print(&mut self, which: u8, reasons: &[TerminationReason]) {
            let $s = self;
            match which {
                0 => $c.print_initial_info(),
                1 => $c.print_info(),
                _ => $c.print_final_info(reasons),
            }
        }
        fn add_plot(&mut self) {
            let $s = self;
            $c.add_plot_point()
        }
        fn clear_plot(&mut self) {
            let $s = self;
            if let Some(p) = $c.get_mut_plot() {
                p.clear()
            }
        }
        fn save(&self, path: &str, dirs: bool) -> Option<Result<(), String>> {
            let $s = self;
            $c.get_plot().map(|p| match p.save_to_file(path, dirs) {
                Ok(()) => Ok(()),
                Err(e) => Err(format!("{}", e)),
            })
        }
    };
}

impl<F: ObjectiveFunction + ParallelObjectiveFunction> Inst for Both<F> {
    fn next(&mut self, par: bool) -> Option<TerminationData> {
        if par {
            self.c.next_parallel()
        } else {
            self.c.next()
        }
    }
    fn run(&mut self, par: bool) -> TerminationData {
        if par {
            self.c.run_parallel()
        } else {
            self.c.run()
        }
    }
    fn into_calls(self: Box<Self>) -> Option<u64> {
        let f = self.calls;
        f(self.c.into_objective_function())
    }
    common!(s, s.c);
}
impl<F: ObjectiveFunction> Inst for Seq<F> {
    fn next(&mut self, _: bool) -> Option<TerminationData> {
        self.0.next()
    }
    fn run(&mut self, _: bool) -> TerminationData {
        self.0.run()
    }
    fn into_calls(self: Box<Self>) -> Option<u64> {
        drop(self.0.into_objective_function());
        None
    }
    common!(s, s.0);
}
impl<F: ParallelObjectiveFunction> Inst for Par<F> {
    fn next(&mut self, _: bool) -> Option<TerminationData> {
        self.0.next_parallel()
    }
    fn run(&mut self, _: bool) -> TerminationData {
        self.0.run_parallel()
    }
    fn into_calls(self: Box<Self>) -> Option<u64> {
        drop(self.0.into_objective_function());
        None
    }
    common!(s, s.0);
}

fn uses_par(ops: &[Op]) -> bool {
    ops.iter().any(|o| match o {
        Op::NextPar | Op::RunPar => true,
        Op::Gens { par, .. } => *par,
        _ => false,
    })
}
fn uses_seq(ops: &[Op]) -> bool {
    ops.iter().any(|o| match o {
        Op::Next | Op::Run => true,
        Op::Gens { par, .. } => !*par,
        _ => false,
    })
}

pub fn cmaes(actor: usize, cfg: &Cfg, obj: &Obj, ops: &[Op], scratch: &str) {
    with_inst(actor, cfg, obj, ops, &mut |inst| {
        if let Some(inst) = inst {
            let mut d = Driver::new(actor, inst, ops, scratch);
            while d.unit() {}
        }
    });
}

/// Steps several instances on this thread in turns, in an order decided by the seed; actors that cannot be
/// stepped run as a whole at some point in between.
pub fn interleaved(actors: &[(usize, &Actor)], seed: u64, scratch: &str, whole: &dyn Fn(usize)) {
    let stepped: Vec<_> = actors.iter().filter(|a| matches!(a.1.kind, Kind::Cmaes { .. })).cloned().collect();
    let others: Vec<usize> = actors.iter().filter(|a| !matches!(a.1.kind, Kind::Cmaes { .. })).map(|a| a.0).collect();
    nest(&stepped, vec![], scratch, &mut |mut ds| {
        let mut rng = simrt::rng::Rng::new(seed);
        let mut others = others.clone();
        // the same one keeps the turn for a while, or they alternate
        let keep = [0.0, 0.0, 0.5, 0.9][rng.below(4) as usize];
        let mut last = 0;
        while !ds.is_empty() || !others.is_empty() {
            let n = ds.len() + others.len();
            let i = if last < ds.len() && rng.chance(keep) { last } else { rng.below(n as u64) as usize };
            last = i;
            if i >= ds.len() {
                whole(others.remove(i - ds.len()));
            } else if !ds[i].unit() {
                let a = ds[i].actor;
                drop(ds.remove(i));
                finished(a);
            }
        }
    });
}

pub fn finished(actor: usize) {
    let a = &mut h().actors[actor];
    if a.t_end == 0 {
        a.t_end = simrt::now();
    }
    a.done = true;
}

fn nest<'x>(rest: &[(usize, &Actor)], have: Vec<(usize, Box<dyn Inst + 'x>, &[Op])>, scratch: &str, f: &mut dyn for<'b> FnMut(Vec<Driver<'b>>)) {
    match rest.split_first() {
        None => f(have.into_iter().map(|(a, i, ops)| Driver::new(a, i, ops, scratch)).collect()),
        Some(((actor, a), rest)) => {
            if let Kind::Cmaes { cfg, obj, ops } = &a.kind {
                let mut have = Some(have);
                with_inst(*actor, cfg, obj, ops, &mut |inst| {
                    let mut have: Vec<_> = have.take().unwrap();
                    match inst {
                        Some(inst) => have.push((*actor, inst, ops)),
                        None => finished(*actor),
                    }
                    nest(rest, have, scratch, f)
                });
            }
        }
    }
}

fn with_inst(actor: usize, cfg: &Cfg, obj: &Obj, ops: &[Op], k: &mut dyn for<'a> FnMut(Option<Box<dyn Inst + 'a>>)) {
    let opts = options(actor, cfg);
    h().actors[actor].s0 = simrt::captured_stdout().len();
    h().actors[actor].t_create0 = simrt::now();
    let core = Core::new(actor, obj);
    let dim = cfg.mean.len();
    match obj.form {
        Form::Struct => match opts.build(core) {
            Ok(c) => k(made(actor, Box::new(Both { c, calls: |f| Some(f.calls.load(std::sync::atomic::Ordering::SeqCst)) })))  ,
            Err(e) => {
                berr(actor, format!("{:?}", e));
                k(None)
            }
        },
        Form::Closure => {
            let f = move |x: &DVector<f64>| core.call(x, true);
            match opts.build(f) {
                Ok(c) => k(made(actor, Box::new(Both { c, calls: |_| None }))),
                Err(e) => {
                berr(actor, format!("{:?}", e));
                k(None)
            }
            }
        }
        Form::FnRef => {
            let f = |x: &DVector<f64>| core.call(x, true);
            match opts.build(&f) {
                Ok(c) => k(made(actor, Box::new(Both { c, calls: |_| None }))),
                Err(e) => {
                berr(actor, format!("{:?}", e));
                k(None)
            }
            }
        }
        Form::Scaled | Form::Stretched => {
            let (core, scales) = match obj.form {
                Form::Scaled => core.behind_scale(dim),
                _ => {
                    let s = core.stretch(dim);
                    (core, s)
                }
            };
            let s = Scale::new(core, scales);
            match opts.build(s) {
                Ok(c) => k(made(actor, Box::new(Both { c, calls: |f| Some(f.into_wrapped_function().calls.load(std::sync::atomic::Ordering::SeqCst)) }))),
                Err(e) => {
                berr(actor, format!("{:?}", e));
                k(None)
            }
            }
        }
        Form::BoxDyn => {
            if uses_par(ops) && !uses_seq(ops) {
                let b: Box<dyn ParallelObjectiveFunction> = Box::new(core);
                match opts.build(b) {
                    Ok(c) => k(made(actor, Box::new(Par(c)))),
                    Err(e) => {
                berr(actor, format!("{:?}", e));
                k(None)
            }
                }
            } else {
                let b: Box<dyn ObjectiveFunction> = Box::new(core);
                match opts.build(b) {
                    Ok(c) => k(made(actor, Box::new(Seq(c)))),
                    Err(e) => {
                berr(actor, format!("{:?}", e));
                k(None)
            }
                }
            }
        }
        Form::MutRef => {
            let mut core = core;
            if uses_par(ops) {
                let f = |x: &DVector<f64>| core.call(x, true);
                match opts.build(f) {
                    Ok(c) => k(made(actor, Box::new(Both { c, calls: |_| None }))),
                    Err(e) => {
                berr(actor, format!("{:?}", e));
                k(None)
            }
                }
            } else {
                match opts.build(&mut core) {
                    Ok(c) => k(made(actor, Box::new(Seq(c)))),
                    Err(e) => {
                berr(actor, format!("{:?}", e));
                k(None)
            }
                }
            }
        }
    }
}

fn berr(actor: usize, e: String) {
    h().actors[actor].build_err = Some(e);
}

/// Called right after an instance was built.
fn made<'a>(actor: usize, inst: Box<dyn Inst + 'a>) -> Option<Box<dyn Inst + 'a>> {
    h().actors[actor].t_create1 = simrt::now();
    Some(inst)
}

struct Driver<'a> {
    actor: usize,
    inst: Option<Box<dyn Inst + 'a>>,
    ops: Vec<Op>,
    scratch: String,
    pos: usize,
    gens_done: u64,
    debug: bool,
    last_reasons: Vec<TerminationReason>,
    saves: usize,
}

impl<'a> Driver<'a> {
    fn new(actor: usize, inst: Box<dyn Inst + 'a>, ops: &[Op], scratch: &str) -> Self {
        let debug = ops.iter().any(|o| matches!(o, Op::ClearPlot | Op::AddPlotPoint));
        h().actors[actor].params = Some(inst.params());
        let s = inst.snap(debug);
        h().actors[actor].initial = Some(s);
        Driver { actor, inst: Some(inst), ops: ops.to_vec(), scratch: scratch.to_string(), pos: 0, gens_done: 0, debug, last_reasons: vec![], saves: 0 }
    }

    /// One call; false when there are no more.
    fn unit(&mut self) -> bool {
        let (actor, debug) = (self.actor, self.debug);
        let op = match self.ops.get(self.pos) {
            Some(o) if self.inst.is_some() => o.clone(),
            _ => {
                self.inst = None;
                h().actors[actor].s1 = simrt::captured_stdout().len();
                return false;
            }
        };
        let i = self.inst.as_mut().unwrap();
        let last_reasons = &mut self.last_reasons;
        let mut again = false;
        match &op {
            Op::Next => {
                step_gen(actor, i, false, debug, last_reasons);
            }
            Op::NextPar => {
                step_gen(actor, i, true, debug, last_reasons);
            }
            Op::Gens { n, par, past_end } => {
                if self.gens_done < *n {
                    let ended = step_gen(actor, i, *par, debug, last_reasons);
                    self.gens_done += 1;
                    again = self.gens_done < *n && (!ended || *past_end);
                }
            }
            Op::Run | Op::RunPar => {
                let par = op == Op::RunPar;
                let k = if par { OpK::RunPar } else { OpK::Run };
                step(actor, i, k, debug, |i| {
                    let t = i.run(par);
                    *last_reasons = t.reasons.clone();
                    Outcome::Term(term(&t))
                });
            }
            Op::PrintInitial => {
                step(actor, i, OpK::PrintInitial, debug, |i| {
                    i.print(0, &[]);
                    Outcome::Go
                });
            }
            Op::PrintInfo => {
                step(actor, i, OpK::PrintInfo, debug, |i| {
                    i.print(1, &[]);
                    Outcome::Go
                });
            }
            Op::PrintFinal => {
                let r = last_reasons.clone();
                step(actor, i, OpK::PrintFinal, debug, |i| {
                    i.print(2, &r);
                    Outcome::Go
                });
            }
            Op::AddPlotPoint => {
                step(actor, i, OpK::AddPlot, debug, |i| {
                    i.add_plot();
                    Outcome::Go
                });
            }
            Op::ClearPlot => {
                step(actor, i, OpK::ClearPlot, debug, |i| {
                    i.clear_plot();
                    Outcome::Go
                });
            }
            Op::SavePlot { dirs, sub } => {
                let (scratch, saves) = (&self.scratch, self.saves);
                let path = match sub {
                    0 => format!("{}/p{}_{}.png", scratch, actor, saves),
                    1 => format!("{}/d{}/p{}.png", scratch, actor, saves),
                    3 => format!("{}/s{}.png", scratch, actor),
                    _ => format!("{}/e{}/f{}/p{}.png", scratch, actor, saves, saves),
                };
                self.saves += 1;
                save(actor, i, &path, *dirs, debug);
            }
            Op::Idle { ns } => simrt::busy(*ns),
            Op::Wall { ns } => simrt::wall_jump(*ns),
            Op::IntoObjective => {
                let live = h().actors[actor].obj_created - h().actors[actor].obj_dropped;
                h().actors[actor].live_before_into = Some(live);
                let calls = self.inst.take().unwrap().into_calls();
                h().actors[actor].returned_calls = calls;
            }
        }
        if !again {
            self.pos += 1;
            self.gens_done = 0;
        }
        true
    }
}

fn step_gen<'a>(actor: usize, i: &mut Box<dyn Inst + 'a>, par: bool, debug: bool, reasons: &mut Vec<TerminationReason>) -> bool {
    let k = if par { OpK::NextPar } else { OpK::Next };
    let mut ended = false;
    step(actor, i, k, debug, |i| match i.next(par) {
        None => Outcome::Go,
        Some(t) => {
            *reasons = t.reasons.clone();
            ended = true;
            Outcome::Term(term(&t))
        }
    });
    ended
}

fn step<'a, G>(actor: usize, i: &mut Box<dyn Inst + 'a>, op: OpK, debug: bool, f: G)
where
    G: FnOnce(&mut Box<dyn Inst + 'a>) -> Outcome,
{
    let f0 = fired();
    let (e0, c0, s0, t0) = {
        let a = &h().actors[actor];
        (a.evals.len(), a.cons.len(), simrt::captured_stdout().len(), simrt::now())
    };
    let r = catch_unwind(AssertUnwindSafe(|| f(i)));
    let out = match r {
        Ok(o) => o,
        Err(p) => match classify(&p) {
            (true, _) => Outcome::Injected,
            (false, m) => Outcome::LibPanic(m),
        },
    };
    let t1 = simrt::now();
    let f1 = fired();
    let s1 = simrt::captured_stdout().len();
    let (e1, c1, inflight) = {
        let a = &h().actors[actor];
        let e1 = a.evals.len();
        (e1, a.cons.len(), a.evals[e0..e1].iter().filter(|e| !e.done && !e.panicked).count())
    };
    let after = i.snap(debug);
    let t2 = simrt::now();
    let a = &mut h().actors[actor];
    a.step_no += 1;
    a.steps.push(Step {
        op,
        t0,
        t1,
        e0,
        e1,
        c0,
        c1,
        out,
        after,
        s0,
        s1,
        f0,
        f1,
        t2,
        inflight,
        file: None,
        reference: None,
        retry_ok: None,
        dir: (false, false),
    });
}

/// Injected faults so far: hard ones in the low half, retryable ones (EINTR, short) in the high half.
fn fired() -> u64 {
    simrt::disk_fired()
        .iter()
        .map(|f| if f.0.contains("eintr") || f.0.contains("short") { f.1 << 32 } else { f.1 })
        .sum()
}

fn save<'a>(actor: usize, i: &mut Box<dyn Inst + 'a>, path: &str, dirs: bool, debug: bool) {
    let parent = std::path::Path::new(path).parent().map(|p| p.to_path_buf()).unwrap_or_default();
    let before = parent.is_dir();
    step(actor, i, OpK::Save, debug, |i| match i.save(path, dirs) {
        None => Outcome::Go,
        Some(r) => Outcome::Saved(r),
    });
    let dir = (before, parent.is_dir());
    let file = simrt::sys::raw_read_file(path);
    let (mut refb, mut retry) = (None, None);
    if i.snap(false).plot_len.is_some() {
        simrt::set_disk_faults(false);
        let r = catch_unwind(AssertUnwindSafe(|| i.save(path, true)));
        simrt::set_disk_faults(true);
        retry = Some(matches!(r, Ok(Some(Ok(())))));
        refb = simrt::sys::raw_read_file(path);
    }
    let s = h().actors[actor].steps.last_mut().unwrap();
    s.file = file;
    s.reference = refb;
    s.retry_ok = retry;
    s.dir = dir;
}

// ---------------------------------------------------------------------------------------------

pub fn restart(actor: usize, r: &RCfg, obj: &Obj) {
    let strat = match &r.strat {
        Strat::Local { max_runs, factor } => {
            RestartStrategy::Local(Local::new(*max_runs, factor.map(|f| f.0)).unwrap())
        }
        Strat::Ipop { factor } => RestartStrategy::IPOP(match factor {
            None => IPOP::default(),
            Some(f) => IPOP::new(*f).unwrap(),
        }),
        Strat::Bipop { lr, factor } => {
            RestartStrategy::BIPOP(BIPOP::new(lr.map(|f| f.0), *factor).unwrap())
        }
    };
    let mut o = RestartOptions::new(r.dim, r.lo.0..=r.hi.0, strat)
        .mode(if r.maximize { Mode::Maximize } else { Mode::Minimize })
        .parallel_update(r.parallel_update)
        .enable_printing(r.print);
    if let Some(b) = &r.base {
        o = o.default_options(options(actor, b));
    }
    if let Some(x) = r.fun_target {
        o = o.fun_target(x.0);
    }
    if let Some(x) = r.max_evals {
        o = o.max_function_evals(x);
    }
    if let Some(x) = r.max_time_ns {
        o = o.max_time(duration(x));
    }
    if let Some(x) = r.max_evals_per_run {
        o = o.max_function_evals_per_run(x);
    }
    if let Some(x) = r.max_gens_per_run {
        o = o.max_generations_per_run(x);
    }
    if let Some(x) = r.seed {
        o = o.seed(x);
    }
    h().actors[actor].t_create0 = simrt::now();
    h().actors[actor].s0 = simrt::captured_stdout().len();
    let rs = match o.build() {
        Ok(x) => x,
        Err(e) => {
            h().actors[actor].build_err = Some(format!("{:?}", e));
            return;
        }
    };
    h().actors[actor].rseed = Some(rs.seed());
    h().actors[actor].t_create1 = simrt::now();
    let fresh = || {
        let a = &mut h().actors[actor];
        let e0 = a.evals.len();
        a.runs.push(RRun { t: simrt::now(), e0 });
        a.step_no += 1;
        Core::new(actor, obj)
    };
    let res = match r.api {
        RApi::Run => match obj.form {
            Form::Closure => rs.run(|| {
                let c = fresh();
                move |x: &DVector<f64>| c.call(x, false)
            }),
            _ => rs.run(fresh),
        },
        RApi::RunPar => match obj.form {
            Form::Closure => rs.run_parallel(|| {
                let c = fresh();
                move |x: &DVector<f64>| c.call(x, true)
            }),
            _ => rs.run_parallel(fresh),
        },
        RApi::Reuse => match obj.form {
            Form::MutRef => {
                let mut c = fresh();
                rs.run_with_reuse(&mut c)
            }
            _ => rs.run_with_reuse(fresh()),
        },
        RApi::ReusePar => rs.run_parallel_with_reuse(fresh()),
    };
    h().actors[actor].s1 = simrt::captured_stdout().len();
    h().actors[actor].t_end = simrt::now();
    if r.print && r.base.as_ref().map_or(true, |b| b.con.is_none()) {
        let text = {
            let a = &h().actors[actor];
            String::from_utf8_lossy(&simrt::captured_stdout()[a.s0..a.s1]).to_string()
        };
        let mut sh = vec![];
        for x in model::oracle2::parse_runs(&text).unwrap_or_default() {
            let pts = std::sync::Mutex::new(vec![]);
            let f = |x: &DVector<f64>| {
                pts.lock().unwrap().push(x.as_slice().to_vec());
                0.0
            };
            if x.lambda >= 2 && x.lambda < 100_000 {
                if let Ok(mut c) = CMAESOptions::new(vec![0.0; r.dim], 1.0)
                    .population_size(x.lambda)
                    .seed(x.seed)
                    .build(f)
                {
                    let _ = c.next();
                }
            }
            sh.push(pts.into_inner().unwrap());
        }
        let mut reps = vec![];
        let mut e0 = 0;
        for (k, x) in model::oracle2::parse_runs(&text).unwrap_or_default().iter().enumerate() {
            let ev = &h().actors[actor].evals;
            let e1 = (e0 + x.fevals).min(ev.len());
            reps.push(replay_run(actor, r, x, &ev[e0.min(e1)..e1], &sh[k]));
            e0 = e1;
        }
        let a = &mut h().actors[actor];
        a.replays = reps;
        a.shadow = sh;
    }
    let a = &mut h().actors[actor];
    a.rres = Some(RRes {
        best: ind(res.best.as_ref()),
        reason: format!("{:?}", res.reason),
        fevals: res.function_evals,
        runs: res.runs,
    });
}

/// Makes the run `x` of a Restarter again: an ordinary run with the base options and the announced
/// population size, seed and initial point, whose objective function returns the recorded values.
fn replay_run(actor: usize, r: &RCfg, x: &model::oracle2::RunInfo, ev: &[EvalRec], y: &[Vec<f64>]) -> Replay {
    let mut out = Replay::default();
    let l = x.lambda;
    if l < 2 || l > 500 || ev.len() < l {
        return out;
    }
    let (s, m, _) = match model::oracle2::initial_mean(ev, y, l, r.dim) {
        Some(v) => v,
        None => return out,
    };
    let o = match &r.base {
        None => CMAESOptions::new(vec![0.0; r.dim], 1.0),
        Some(b) => options(
            actor,
            &Cfg {
                print_gap: None,
                plot_gap: None,
                max_time_ns: None,
                max_evals: None,
                max_gens: None,
                fun_target: None,
                ..b.clone()
            },
        ),
    };
    let o = o
        .initial_mean(m)
        .initial_step_size(s)
        .mode(if r.maximize { Mode::Maximize } else { Mode::Minimize })
        .parallel_update(r.parallel_update)
        .population_size(l)
        .seed(x.seed);
    // constraints select among the samples, which may lie in other directions (see below)
    let con = r.base.as_ref().map_or(false, |b| b.con.is_some());
    let cur = std::cell::RefCell::new((0usize, vec![false; l], 0.0f64, vec![]));
    let f = |p: &DVector<f64>| {
        let mut c = cur.borrow_mut();
        let (g, used, worst, pts) = &mut *c;
        pts.push(p.clone());
        let chunk: &[EvalRec] = &ev[*g * l..(*g + 1) * l];
        let dist = |e: &EvalRec| e.x.iter().zip(p.iter()).map(|(a, b)| (a - b).abs()).fold(0.0f64, |a, v| if v.is_nan() { f64::INFINITY } else { a.max(v) });
        let mut at: Option<(usize, f64)> = None;
        for (i, e) in chunk.iter().enumerate() {
            if !used[i] {
                let d = dist(e);
                if at.map_or(true, |(_, q)| d < q) {
                    at = Some((i, d));
                }
            }
        }
        match at {
            Some((i, d)) => {
                used[i] = true;
                *worst = worst.max(d);
                chunk[i].v
            }
            None => f64::NAN,
        }
    };
    let mut c = match o.build(f) {
        Ok(c) => c,
        Err(_) => return out,
    };
    let gens = ev.len() / l;
    // the matrix that the axes in use belong to
    let mut eig = c.eigenvalues();
    let mut axes = c.covariance_matrix().clone();
    for g in 0..gens.min(150) {
        let chunk = &ev[g * l..(g + 1) * l];
        if chunk.iter().any(|e| !e.done || !e.v.is_finite()) {
            break;
        }
        *cur.borrow_mut() = (g, vec![false; l], 0.0, vec![]);
        if c.eigenvalues() != eig {
            eig = c.eigenvalues();
            axes = c.covariance_matrix().clone();
        }
        let (mean, sigma) = (c.mean().clone(), c.sigma());
        let t = match catch_unwind(AssertUnwindSafe(|| c.next())) {
            Ok(t) => t,
            Err(_) => break,
        };
        let (_, used, worst, pts) = &*cur.borrow();
        if !used.iter().all(|u| *u) {
            break;
        }
        let spread = (0..r.dim)
            .map(|i| chunk.iter().fold(f64::MIN, |a, e| a.max(e.x[i])) - chunk.iter().fold(f64::MAX, |a, e| a.min(e.x[i])))
            .fold(0.0f64, |a, v| a.max(v));
        let top = chunk.iter().flat_map(|e| e.x.iter()).fold(0.0f64, |a, v| a.max(v.abs()));
        // the points themselves are rounded
        let rel = (worst - 1e-14 * top).max(0.0) / spread;
        if !(rel < 1e-6) {
            // The axes may be numbered and directed otherwise, and those of equal eigenvalues turned,
            // because of nothing but rounding; the lengths of the steps stay
            if rel > 1e-2 && out.dev < 1e-9 && spread > 1e-6 * top && !con && eig.max() < 1e6 * eig.min() {
                if let Some(ch) = axes.clone().cholesky() {
                    let len = |x: DVector<f64>| {
                        let y = (x - &mean) / sigma;
                        y.dot(&ch.solve(&y)).sqrt()
                    };
                    let mut a: Vec<f64> = chunk.iter().map(|e| len(DVector::from_column_slice(&e.x))).collect();
                    let mut b: Vec<f64> = pts.iter().map(|x| len(x.clone())).collect();
                    a.sort_by(f64::total_cmp);
                    b.sort_by(f64::total_cmp);
                    if a.iter().zip(&b).any(|(a, b)| !((a - b).abs() <= 1e-3 * (1.0 + b))) {
                        out.jump = Some(g);
                    }
                }
            }
            break;
        }
        out.dev = out.dev.max(rel);
        out.gens = g + 1;
        let rs = t.map(|t| t.reasons.iter().map(|q| format!("{}", q)).collect::<Vec<_>>());
        if g + 1 == gens {
            out.end = Some(rs.unwrap_or_default());
        } else if let Some(q) = rs {
            out.early = Some((g, q));
            break;
        }
    }
    out
}

pub fn func(actor: usize, mean: &[F], sigma: f64, max: bool, par: bool, obj: &Obj) {
    h().actors[actor].s0 = simrt::captured_stdout().len();
    let core = Core::new(actor, obj);
    let m = vecf(mean);
    let r = match (max, par) {
        (false, false) => cmaes::fmin(core, m, sigma),
        (false, true) => cmaes::fmin_parallel(core, m, sigma),
        (true, false) => cmaes::fmax(core, m, sigma),
        (true, true) => cmaes::fmax_parallel(core, m, sigma),
    };
    let a = &mut h().actors[actor];
    a.s1 = simrt::captured_stdout().len();
    a.func_res = Some((r.point.as_slice().to_vec(), r.value));
}
