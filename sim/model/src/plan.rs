//! The plan of one simulated run: everything that is decided before the run starts. A plan is a pure
//! function of (VERIF_SEED, property, index); a replay file is a plan in JSON.

use serde::de::{self, Visitor};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

/// f64 that survives JSON bit for bit (inf and NaN included).
#[derive(Clone, Copy, PartialEq)]
pub struct F(pub f64);
impl fmt::Debug for F {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = F;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "a float string")
            }
            fn visit_str<E: de::Error>(self, s: &str) -> Result<F, E> {
                s.parse().map(F).map_err(E::custom)
            }
        }
        d.deserialize_str(V)
    }
}

/// null, "unlimited" or a number (plain JSON would make the first two the same).
mod limit {
    use serde::de::Error;
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &Option<Option<usize>>, s: S) -> Result<S::Ok, S::Error> {
        match v {
            None => s.serialize_none(),
            Some(None) => s.serialize_str("unlimited"),
            Some(Some(n)) => s.serialize_str(&n.to_string()),
        }
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<Option<usize>>, D::Error> {
        Ok(match Option::<String>::deserialize(d)?.as_deref() {
            None => None,
            Some("unlimited") => Some(None),
            Some(n) => Some(Some(n.parse().map_err(D::Error::custom)?)),
        })
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Policy {
    Coop,
    Random { mean: u64 },
    Pct { depth: u32, span: u64 },
    RoundRobin { slice: u64 },
    Stall { victim: u16, until: u64, mean: u64 },
    Explicit { preempt: Vec<(u64, u16)>, sync: Vec<(u64, u16)> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum IoOp {
    Open,
    Write,
    Mkdir,
    Close,
    Sync,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum IoFault {
    Enospc,
    Eio,
    Eacces,
    Emfile,
    Eintr,
    Ebadf,
    Edquot,
    Short(u64),
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct IoPlan {
    pub at: Vec<(IoOp, u64, IoFault)>,
    pub capacity: Option<u64>,
    pub max_write: Option<u64>,
    pub eintr_every: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SimPlan {
    pub workers: usize,
    pub policy: Policy,
    pub sched_seed: u64,
    pub entropy_seed: u64,
    pub tick_budget: u64,
    pub spurious: F,
    pub leaps: Vec<(u64, u64)>,
    pub wall_jumps: Vec<(u64, i64)>,
    pub stdout: IoPlan,
    pub disk: IoPlan,
}

impl SimPlan {
    pub fn quiet() -> Self {
        SimPlan {
            workers: 1,
            policy: Policy::Coop,
            sched_seed: 1,
            entropy_seed: 1,
            tick_budget: 2_000_000_000,
            spurious: F(0.0),
            leaps: vec![],
            wall_jumps: vec![],
            stdout: IoPlan::default(),
            disk: IoPlan::default(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum W {
    Positive,
    Negative,
    Uniform,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Con {
    /// The library's own `Bounds`.
    Bounds { lo: Vec<F>, hi: Vec<F> },
    /// The same as `Bounds`, but decided by the harness and logged.
    Logged { lo: Vec<F>, hi: Vec<F> },
    /// Harness-side box, logged.
    Box { lo: F, hi: F },
    /// a.x <= b, logged.
    Half { b: F },
    /// outside a ball, logged.
    Shell { r: F },
    /// Rejects everything for the first n checks, then everything is fine, logged (a stuck, then
    /// healed constraint).
    StuckThenOk { n: u64 },
    /// Rejects by hash of the point with the given probability, logged.
    Flaky { p: F, seed: u64 },
    /// Panics in the given checks and for one in so many points, accepts everything else, logged.
    Panics { at: u64, count: u64, one_in: u64, seed: u64 },
    /// Never satisfied, logged.
    Never,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    pub mean: Vec<F>,
    pub sigma: F,
    pub maximize: bool,
    pub lambda: Option<usize>,
    pub weights: W,
    pub parallel_update: bool,
    pub cm: F,
    pub con: Option<Con>,
    /// None = library default, Some(None) = unlimited
    #[serde(with = "limit")]
    pub max_resamples: Option<Option<usize>>,
    pub max_evals: Option<usize>,
    pub max_gens: Option<usize>,
    pub max_time_ns: Option<u64>,
    pub fun_target: Option<F>,
    pub tol_fun: Option<F>,
    pub tol_fun_rel: Option<F>,
    pub tol_fun_hist: Option<F>,
    pub tol_x: Option<F>,
    pub tol_stagnation: Option<usize>,
    pub tol_x_up: Option<F>,
    pub tol_condition_cov: Option<F>,
    pub seed: Option<u64>,
    pub plot_gap: Option<usize>,
    pub print_gap: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fun {
    Sphere,
    Ellipsoid,
    Rosenbrock,
    Rastrigin,
    Cigar,
    Linear,
    /// floor of sphere: ties and plateaus
    Steps,
    Constant,
    /// hash of the point: pure noise, deterministic per point
    Noise,
    /// sphere + noise
    NoisySphere,
    /// |x|^(1/4)-like, sharp
    Sharp,
    /// sphere of x rotated
    Rotated,
    /// values only in {0,1,2}
    Few,
    /// sum of |x_i|^(2+i), slowly flattening
    DiffPow,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Trig {
    /// the n-th call of this objective (0-based), for `count` calls
    Call { n: u64, count: u64 },
    /// one in `one_in` points, chosen by hash of the point
    Hash { seed: u64, one_in: u64 },
    /// calls made while this actor's step number (0-based) is in [from, to)
    Steps { from: u64, to: u64, one_in: u64, seed: u64 },
    /// points whose first coordinate exceeds the value
    Region { above: F },
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum What {
    Nan,
    NegNan,
    Inf,
    NegInf,
    Huge,
    NegHuge,
    Panic,
    /// busy for this many ns of simulated time
    Stall(u64),
    /// the clock leaps (the whole process is paused)
    Leap(u64),
    /// wall clock steps by this many ns
    Wall(i64),
    /// returns the same value as the previous call
    Stuck,
    /// negative zero
    NegZero,
    Zero,
    /// +tiny subnormal
    Tiny,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Form {
    Struct,
    Closure,
    BoxDyn,
    Scaled,
    /// Behind a `Scale` with any factors, which the history keeps: for comparisons between runs only.
    Stretched,
    MutRef,
    FnRef,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Obj {
    pub fun: Fun,
    pub shift: Vec<F>,
    pub scale: F,
    pub offset: F,
    pub noise: F,
    pub seed: u64,
    /// value drift per call (stateful, sequential only)
    pub drift: F,
    pub form: Form,
    pub faults: Vec<(Trig, What)>,
    /// max busy time per evaluation (derived from the point's hash); 0 = instantaneous
    pub delay_ns: u64,
    /// extra preemption points per evaluation
    pub spin: u32,
    /// negates the value (for mirrored twins)
    pub negate: bool,
    /// runs a nested, seeded optimisation in every n-th call, 1 = parallel inside
    pub nested: Option<(u64, bool)>,
    /// uses rayon::join inside
    pub nested_join: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Next,
    NextPar,
    /// next or next_parallel repeated until termination, at most n times, ignoring nothing
    Gens { n: u64, par: bool, past_end: bool },
    Run,
    RunPar,
    PrintInitial,
    PrintInfo,
    PrintFinal,
    AddPlotPoint,
    SavePlot { dirs: bool, sub: u32 },
    ClearPlot,
    Idle { ns: u64 },
    Wall { ns: i64 },
    IntoObjective,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Strat {
    Local { max_runs: usize, factor: Option<F> },
    Ipop { factor: Option<usize> },
    Bipop { lr: Option<F>, factor: Option<usize> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum RApi {
    Run,
    RunPar,
    Reuse,
    ReusePar,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RCfg {
    pub dim: usize,
    pub lo: F,
    pub hi: F,
    pub strat: Strat,
    pub maximize: bool,
    pub parallel_update: bool,
    pub fun_target: Option<F>,
    pub max_evals: Option<usize>,
    pub max_time_ns: Option<u64>,
    pub max_evals_per_run: Option<usize>,
    pub max_gens_per_run: Option<usize>,
    pub print: bool,
    pub seed: Option<u64>,
    /// base options of every run: only lambda, tolerances, con, weights are used
    pub base: Option<Cfg>,
    pub api: RApi,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Cmaes { cfg: Cfg, obj: Obj, ops: Vec<Op> },
    Restart { r: RCfg, obj: Obj },
    /// fmin, fmin_parallel, fmax, fmax_parallel
    Func { mean: Vec<F>, sigma: F, max: bool, par: bool, obj: Obj },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Actor {
    pub kind: Kind,
    /// None = main thread, Some(0) = own OS thread, Some(n) = own rayon pool of n threads
    pub place: Option<usize>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Phase {
    pub name: String,
    pub sim: SimPlan,
    pub actors: Vec<Actor>,
    /// the actors on the main thread are stepped in turns instead of one after the other
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub turns: Option<u64>,
}

/// Compares the transcripts of two phases.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cmp {
    pub a: usize,
    pub b: usize,
    /// (actor in a, actor in b)
    pub actors: Vec<(usize, usize)>,
    /// only the final state and totals
    pub final_only: bool,
    /// bit set of fields to compare
    pub mask: u32,
    pub what: String,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub index: u64,
    pub phases: Vec<Phase>,
    pub cmps: Vec<Cmp>,
    /// (phase, actor, from phase, from actor): the seed to use is the one reported there
    pub seeds_from: Vec<(usize, usize, usize, usize)>,
    /// (phases, phase): what the last one prints is a line by line interleaving of what the others print
    #[serde(default)]
    pub lines: Vec<(Vec<usize>, usize)>,
}
