//! The recorded history of one phase (one simulated process).

use simrt::rng::Hash;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    Nan,
    NegNan,
    Inf,
    NegInf,
    Huge,
    NegHuge,
    Panic,
    Stuck,
    NegZero,
    Zero,
    Tiny,
}

#[derive(Clone, Debug)]
pub struct EvalRec {
    pub obj: u32,
    pub x: Vec<f64>,
    pub v: f64,
    pub done: bool,
    pub panicked: bool,
    pub tid: u32,
    pub t0: u64,
    pub t1: u64,
    pub fault: Option<FaultKind>,
    pub par_call: bool,
    pub stream: u64,
}

#[derive(Clone, Debug)]
pub struct ConRec {
    pub x: Vec<f64>,
    pub ok: bool,
    pub panicked: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub mean: Vec<f64>,
    pub sigma: f64,
    pub cov: Vec<f64>,
    pub eig: Vec<f64>,
    pub axis_ratio: f64,
    pub gen: usize,
    pub fevals: usize,
    pub cur: Option<(Vec<f64>, f64)>,
    pub best: Option<(Vec<f64>, f64)>,
    pub elapsed_ns: u64,
    /// time since the reported time of creation
    pub since_ns: u64,
    pub plot_len: Option<usize>,
    pub plot_debug: Option<String>,
}

fn bits(x: &[f64], y: &[f64]) -> bool {
    x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.to_bits() == b.to_bits())
}
fn bitso(x: &Option<(Vec<f64>, f64)>, y: &Option<(Vec<f64>, f64)>) -> bool {
    match (x, y) {
        (None, None) => true,
        (Some(a), Some(b)) => bits(&a.0, &b.0) && a.1.to_bits() == b.1.to_bits(),
        _ => false,
    }
}

impl Snap {
    /// First field (other than counters, clock and plot) in which two snapshots differ bitwise.
    pub fn diff(&self, o: &Snap) -> Option<&'static str> {
        if !bits(&self.mean, &o.mean) {
            return Some("mean");
        }
        if self.sigma.to_bits() != o.sigma.to_bits() {
            return Some("sigma");
        }
        if !bits(&self.cov, &o.cov) {
            return Some("covariance");
        }
        if !bits(&self.eig, &o.eig) {
            return Some("eigenvalues");
        }
        if self.axis_ratio.to_bits() != o.axis_ratio.to_bits() {
            return Some("axis_ratio");
        }
        if self.gen != o.gen {
            return Some("generation");
        }
        if !bitso(&self.cur, &o.cur) {
            return Some("current_best");
        }
        if !bitso(&self.best, &o.best) {
            return Some("overall_best");
        }
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum R {
    MaxFunctionEvals,
    MaxGenerations,
    MaxTime,
    FunTarget,
    TolFun,
    TolFunRel,
    TolFunHist,
    TolX,
    TolStagnation,
    TolXUp,
    NoEffectAxis,
    NoEffectCoord,
    TolConditionCov,
    InvalidFunctionValue,
    PosDefCov,
}

#[derive(Clone, Debug)]
pub struct Term {
    pub reasons: Vec<R>,
    pub cur: Option<(Vec<f64>, f64)>,
    pub best: Option<(Vec<f64>, f64)>,
    pub mean: Vec<f64>,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    /// next() returned None, or an op without result
    Go,
    Term(Term),
    /// the injected panic came out of the call
    Injected,
    /// some other panic came out of the call
    LibPanic(String),
    /// save_to_file
    Saved(Result<(), String>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpK {
    Next,
    NextPar,
    Run,
    RunPar,
    PrintInitial,
    PrintInfo,
    PrintFinal,
    AddPlot,
    Save,
    ClearPlot,
    Other,
}
impl OpK {
    pub fn is_gen(self) -> bool {
        matches!(self, OpK::Next | OpK::NextPar)
    }
    pub fn is_run(self) -> bool {
        matches!(self, OpK::Run | OpK::RunPar)
    }
}

#[derive(Clone, Debug)]
pub struct Step {
    pub op: OpK,
    pub t0: u64,
    pub t1: u64,
    /// simulated time at which the last evaluation of the step ended
    pub e0: usize,
    pub e1: usize,
    pub c0: usize,
    pub c1: usize,
    pub out: Outcome,
    pub after: Snap,
    /// captured stdout range
    pub s0: usize,
    pub s1: usize,
    /// disk and stdout faults fired before/after
    pub f0: u64,
    pub f1: u64,
    /// simulated time after the snapshot was taken
    pub t2: u64,
    /// evaluations of this actor still running when the call returned
    pub inflight: usize,
    /// saves: file bytes after the call and of a fault-free reference save
    pub file: Option<Vec<u8>>,
    pub reference: Option<Vec<u8>>,
    pub retry_ok: Option<bool>,
    /// saves: the directory of the file was there before and after the call
    pub dir: (bool, bool),
}

#[derive(Clone, Debug, Default)]
pub struct Params {
    pub dim: usize,
    pub lambda: usize,
    pub mu: usize,
    pub mu_eff: f64,
    pub weights: Vec<f64>,
    pub cc: f64,
    pub c1: f64,
    pub cs: f64,
    pub cmu: f64,
    pub cm: f64,
    pub damp_s: f64,
    pub sigma0: f64,
    pub seed: u64,
    pub maximize: bool,
    pub max_evals: Option<usize>,
    pub max_gens: Option<usize>,
    pub max_time_ns: Option<u64>,
    pub fun_target: Option<f64>,
    pub tol_fun: f64,
    pub tol_fun_rel: f64,
    pub tol_fun_hist: f64,
    pub tol_x: f64,
    pub tol_stagnation: usize,
    pub tol_x_up: f64,
    pub tol_condition_cov: f64,
}

#[derive(Clone, Debug, Default)]
pub struct RRun {
    /// sim time at factory call
    pub t: u64,
    pub e0: usize,
}

#[derive(Clone, Debug)]
pub struct RRes {
    pub best: Option<(Vec<f64>, f64)>,
    pub reason: String,
    pub fevals: usize,
    pub runs: usize,
}

#[derive(Clone, Debug, Default)]
pub struct ActorHist {
    pub params: Option<Params>,
    pub build_err: Option<String>,
    pub t_create0: u64,
    pub t_create1: u64,
    pub initial: Option<Snap>,
    pub steps: Vec<Step>,
    pub evals: Vec<EvalRec>,
    pub cons: Vec<ConRec>,
    pub runs: Vec<RRun>,
    pub rseed: Option<u64>,
    pub rres: Option<RRes>,
    pub func_res: Option<(Vec<f64>, f64)>,
    /// panic out of a Restarter or fmin call
    pub panic: Option<(bool, String)>,
    pub t_end: u64,
    pub obj_created: u32,
    pub obj_dropped: u32,
    pub obj_double_drop: bool,
    pub eval_after_drop: bool,
    pub overlap_seq: bool,
    pub returned_calls: Option<u64>,
    pub live_before_into: Option<u32>,
    pub done: bool,
    pub step_no: u64,
    pub nested_bad: Option<String>,
    pub nested_runs: u64,
    pub s0: usize,
    pub s1: usize,
    /// restarts: the points of the first generation of each announced run, for mean 0 and sigma 1
    pub shadow: Vec<Vec<Vec<f64>>>,
    /// restarts: the announced runs made again as ordinary ones, fed with the recorded values
    pub replays: Vec<Replay>,
}

/// How far a run of a Restarter is the ordinary run with the announced parameters.
#[derive(Clone, Debug, Default)]
pub struct Replay {
    /// generations that agree
    pub gens: usize,
    /// largest distance of a point, relative to the spread of its generation
    pub dev: f64,
    /// the generation at which the points suddenly differ
    pub jump: Option<usize>,
    /// the ordinary run ends here, the recorded one does not
    pub early: Option<(usize, Vec<String>)>,
    /// reasons of the ordinary run in the last generation of the recorded one
    pub end: Option<Vec<String>>,
}

pub struct Hist {
    pub actors: Vec<ActorHist>,
    pub events: Hash,
    pub fault_counts: Vec<(&'static str, u64)>,
    pub probes: Vec<(&'static str, u64)>,
}

static mut H: Option<Box<Hist>> = None;

#[allow(static_mut_refs)]
pub fn h() -> &'static mut Hist {
    unsafe { H.as_mut().unwrap() }
}

pub fn reset(n: usize) {
    unsafe {
        H = Some(Box::new(Hist {
            actors: (0..n).map(|_| ActorHist::default()).collect(),
            events: Hash::new(),
            fault_counts: vec![],
            probes: vec![],
        }))
    }
}

pub fn fault(k: &'static str) {
    bump(&mut h().fault_counts, k, 1)
}
pub fn probe(k: &'static str) {
    bump(&mut h().probes, k, 1)
}
pub fn probe_n(k: &'static str, n: u64) {
    if n > 0 {
        bump(&mut h().probes, k, n)
    }
}
fn bump(v: &mut Vec<(&'static str, u64)>, k: &'static str, n: u64) {
    for e in v.iter_mut() {
        if e.0 == k {
            e.1 += n;
            return;
        }
    }
    v.push((k, n));
}

/// Called at the start of every objective evaluation; returns the record's index.
pub fn eval_begin(actor: usize, obj: u32, x: &[f64], par_call: bool) -> usize {
    let hh = h();
    let a = &mut hh.actors[actor];
    let i = a.evals.len();
    let mut hs = Hash::new();
    hs.fs(x);
    hh.events.u(simrt::me() as u64 * 4 + 1);
    hh.events.u(hs.0);
    a.evals.push(EvalRec {
        obj,
        x: x.to_vec(),
        v: f64::NAN,
        done: false,
        panicked: false,
        tid: simrt::me() as u32,
        t0: simrt::now(),
        t1: 0,
        fault: None,
        par_call,
        stream: 0,
    });
    i
}

pub fn eval_end(actor: usize, i: usize, v: f64, fault: Option<FaultKind>) {
    let hh = h();
    hh.events.u(simrt::me() as u64 * 4 + 2);
    let a = &mut hh.actors[actor];
    let e = &mut a.evals[i];
    e.v = v;
    e.done = true;
    e.fault = fault;
    e.t1 = simrt::now();
}

pub fn eval_panic(actor: usize, i: usize) {
    let hh = h();
    hh.events.u(simrt::me() as u64 * 4 + 3);
    let e = &mut hh.actors[actor].evals[i];
    e.panicked = true;
    e.fault = Some(FaultKind::Panic);
    e.t1 = simrt::now();
}

pub fn con_check(actor: usize, x: &[f64], ok: bool, panicked: bool) {
    h().actors[actor].cons.push(ConRec { x: x.to_vec(), ok, panicked });
}
