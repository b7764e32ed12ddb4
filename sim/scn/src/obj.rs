//! The simulated environment behind the objective function and constraints.

use cmaes::{CMAESOptions, Constraints, DVector, ObjectiveFunction, ParallelObjectiveFunction};
use model::hist::{self, h, FaultKind};
use model::plan::*;
use simrt::rng::{mix, Hash};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Injected;

pub fn point_hash(x: &[f64], seed: u64) -> u64 {
    let mut hs = Hash::new();
    hs.u(seed);
    hs.fs(x);
    hs.0
}

fn unit(h: u64) -> f64 {
    (mix(h) >> 11) as f64 / (1u64 << 53) as f64
}

pub fn base_value(o: &Obj, x: &[f64]) -> f64 {
    let n = x.len();
    let z: Vec<f64> = (0..n)
        .map(|i| x[i] - o.shift.get(i).map(|f| f.0).unwrap_or(0.0))
        .collect();
    let sphere = |z: &[f64]| z.iter().map(|v| v * v).sum::<f64>();
    let v = match o.fun {
        Fun::Sphere => sphere(&z),
        Fun::Ellipsoid => (0..n)
            .map(|i| 1e6f64.powf(i as f64 / (n.max(2) - 1) as f64) * z[i] * z[i])
            .sum(),
        Fun::Rosenbrock => {
            if n == 1 {
                sphere(&z)
            } else {
                (0..n - 1)
                    .map(|i| {
                        100.0 * (z[i + 1] - z[i] * z[i]).powi(2) + (1.0 - z[i]) * (1.0 - z[i])
                    })
                    .sum()
            }
        }
        Fun::Rastrigin => z
            .iter()
            .map(|v| 10.0 + v * v - 10.0 * (2.0 * std::f64::consts::PI * v).cos())
            .sum(),
        Fun::Cigar => z[0] * z[0] + 1e6 * sphere(&z[1..]),
        Fun::Linear => z[0],
        Fun::Steps => (sphere(&z) * 2.0).floor(),
        Fun::Constant => 0.0,
        Fun::Noise => unit(point_hash(x, o.seed)),
        Fun::NoisySphere => sphere(&z) + o.noise.0 * unit(point_hash(x, o.seed)),
        Fun::Sharp => z.iter().map(|v| v.abs().sqrt()).sum(),
        Fun::Rotated => {
            let mut s = 0.0;
            for i in 0..n {
                let r: f64 = (0..n).map(|j| z[j] * ((i * 7 + j * 3 + 1) as f64).cos()).sum();
                s += r * r * (1.0 + i as f64 * 10.0);
            }
            s
        }
        Fun::Few => (point_hash(x, o.seed) % 3) as f64,
        Fun::DiffPow => (0..n).map(|i| z[i].abs().powf(2.0 + 2.0 * i as f64)).sum(),
    };
    let v = v * o.scale.0 + o.offset.0;
    if o.negate {
        -v
    } else {
        v
    }
}

pub struct Core {
    pub actor: usize,
    pub id: u32,
    pub o: Obj,
    pub calls: AtomicU64,
    last: AtomicU64,
    /// what the library multiplies points by before this objective sees them (powers of two)
    scales: Vec<f64>,
    /// result hashes of nested runs executed alone, before the outer run
    solo: [u64; 4],
}

impl Core {
    pub fn new(actor: usize, o: &Obj) -> Self {
        let a = &mut h().actors[actor];
        let id = a.obj_created;
        a.obj_created += 1;
        let mut solo = [0; 4];
        if o.nested.is_some() {
            for (k, s) in solo.iter_mut().enumerate() {
                *s = nested_run(k as u64, false);
            }
        }
        Core {
            actor,
            id,
            o: o.clone(),
            calls: AtomicU64::new(0),
            last: AtomicU64::new(0),
            scales: vec![],
            solo,
        }
    }

    /// Factors that are not powers of two.
    pub fn stretch(&self, dim: usize) -> Vec<f64> {
        (0..dim)
            .map(|i| {
                let k = mix(self.o.seed ^ mix(77 + i as u64));
                0.05 + (k >> 11) as f64 / (1u64 << 53) as f64 * if k % 3 == 0 { -3.0 } else { 7.0 }
            })
            .collect()
    }

    /// An objective behind a `Scale` with signed powers of two as factors, which it undoes exactly.
    pub fn behind_scale(mut self, dim: usize) -> (Self, Vec<f64>) {
        let seed = self.o.seed;
        self.scales = (0..dim)
            .map(|i| {
                let k = mix(seed ^ mix(i as u64));
                let m = (2.0f64).powi((k >> 8) as i32 % 5 - 2);
                if k % 3 == 0 {
                    -m
                } else {
                    m
                }
            })
            .collect();
        let s = self.scales.clone();
        (self, s)
    }

    fn triggered(&self, t: &Trig, call: u64, x: &[f64]) -> bool {
        match *t {
            Trig::Call { n, count } => call >= n && call - n < count,
            Trig::Hash { seed, one_in } => mix(point_hash(x, seed)) % one_in.max(1) == 0,
            Trig::Steps { from, to, one_in, seed } => {
                let s = h().actors[self.actor].step_no;
                s >= from && s < to && mix(point_hash(x, seed)) % one_in.max(1) == 0
            }
            Trig::Region { above } => x[0] > above.0,
        }
    }

    pub fn call(&self, x: &DVector<f64>, par: bool) -> f64 {
        let unscaled: Vec<f64>;
        let x = if self.scales.is_empty() {
            x.as_slice()
        } else {
            unscaled = x.iter().zip(&self.scales).map(|(v, s)| v / s).collect();
            &unscaled
        };
        let call = self.calls.fetch_add(1, Ordering::SeqCst);
        let idx = hist::eval_begin(self.actor, self.id, x, par);
        let mut v = base_value(&self.o, x);
        if self.o.drift.0 != 0.0 {
            v += self.o.drift.0 * call as f64;
        }
        let mut acc = 0u64;
        for i in 0..self.o.spin {
            acc = acc.wrapping_add(mix(i as u64));
            std::hint::black_box(acc);
        }
        if self.o.delay_ns > 0 {
            simrt::busy(1 + mix(point_hash(x, self.o.seed ^ 77)) % self.o.delay_ns);
        }
        if let Some((every, par_inside)) = self.o.nested {
            if call % every.max(1) == 0 {
                let k = mix(point_hash(x, 99)) % 4;
                let r = nested_run(k, par_inside);
                h().actors[self.actor].nested_runs += 1;
                if r != self.solo[k as usize] {
                    h().actors[self.actor].nested_bad = Some(format!(
                        "nested run with seed {} inside evaluation {} differs from the same run executed alone",
                        k, call
                    ));
                }
            }
        }
        if self.o.nested_join {
            let (a, b) = rayon::join(|| mix(1), || mix(2));
            std::hint::black_box(a ^ b);
        }
        let mut fk = None;
        for (t, w) in &self.o.faults {
            if !self.triggered(t, call, x) {
                continue;
            }
            let v0 = v;
            let mut flip = self.o.negate;
            match *w {
                What::Nan => {
                    v = any_nan(point_hash(x, 7));
                    fk = Some(FaultKind::Nan);
                    hist::fault("objective_nan");
                }
                What::NegNan => {
                    v = -any_nan(point_hash(x, 8));
                    fk = Some(FaultKind::NegNan);
                    hist::fault("objective_neg_nan");
                }
                What::Inf => {
                    v = f64::INFINITY;
                    fk = Some(FaultKind::Inf);
                    hist::fault("objective_inf");
                }
                What::NegInf => {
                    v = f64::NEG_INFINITY;
                    fk = Some(FaultKind::NegInf);
                    hist::fault("objective_neg_inf");
                }
                What::Huge => {
                    v = 1e308 * (0.5 + 0.5 * unit(point_hash(x, 5)));
                    fk = Some(FaultKind::Huge);
                    hist::fault("objective_huge");
                }
                What::NegHuge => {
                    v = -1e308 * (0.5 + 0.5 * unit(point_hash(x, 5)));
                    fk = Some(FaultKind::NegHuge);
                    hist::fault("objective_neg_huge");
                }
                What::NegZero => {
                    v = -0.0;
                    fk = Some(FaultKind::NegZero);
                    hist::fault("objective_neg_zero");
                }
                What::Zero => {
                    v = 0.0;
                    fk = Some(FaultKind::Zero);
                    hist::fault("objective_zero");
                }
                What::Tiny => {
                    v = f64::from_bits(1 + mix(point_hash(x, 6)) % 1000);
                    fk = Some(FaultKind::Tiny);
                    hist::fault("objective_subnormal");
                }
                What::Stuck => {
                    flip = false;
                    v = f64::from_bits(self.last.load(Ordering::SeqCst));
                    fk = Some(FaultKind::Stuck);
                    hist::fault("objective_stuck");
                }
                What::Panic => {
                    hist::fault("objective_panic");
                    hist::eval_panic(self.actor, idx);
                    std::panic::panic_any(Injected);
                }
                What::Stall(ns) => {
                    hist::fault("evaluation_stall");
                    simrt::busy(ns);
                }
                What::Leap(ns) => {
                    hist::fault("clock_leap");
                    simrt::leap(ns);
                }
                What::Wall(ns) => {
                    hist::fault("wall_clock_step");
                    simrt::wall_jump(ns);
                }
            }
            if flip && v.to_bits() != v0.to_bits() {
                v = -v;
            }
        }
        self.last.store(v.to_bits(), Ordering::SeqCst);
        hist::eval_end(self.actor, idx, v, fk);
        v
    }
}

/// A positive NaN: the usual one, quiet with another payload, or signalling.
fn any_nan(h: u64) -> f64 {
    let payload = (mix(h) & 0x0007_ffff_ffff_ffff) | 1;
    match h % 4 {
        0 | 1 => f64::NAN,
        2 => f64::from_bits(0x7ff8_0000_0000_0000 | payload),
        _ => f64::from_bits(0x7ff0_0000_0000_0000 | payload),
    }
}

impl Drop for Core {
    fn drop(&mut self) {
        h().actors[self.actor].obj_dropped += 1;
    }
}

impl ObjectiveFunction for Core {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.call(x, false)
    }
}
impl ParallelObjectiveFunction for Core {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.call(x, true)
    }
}
impl<'a> ObjectiveFunction for &'a mut Core {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.call(x, false)
    }
}

/// A small seeded optimisation executed inside an evaluation; returns a hash of everything seen.
fn nested_run(k: u64, par: bool) -> u64 {
    let dim = 2 + (k % 2) as usize;
    let f = |x: &DVector<f64>| x.iter().map(|v| (v - 0.3) * (v - 0.3)).sum::<f64>();
    let mut c = CMAESOptions::new(vec![0.5; dim], 0.4)
        .seed(1000 + k)
        .max_generations(3)
        .build(f)
        .unwrap();
    let r = if par { c.run_parallel() } else { c.run() };
    let mut hs = Hash::new();
    hs.fs(r.final_mean.as_slice());
    if let Some(b) = r.overall_best {
        hs.fs(b.point.as_slice());
        hs.f(b.value);
    }
    hs.u(c.function_evals() as u64);
    hs.f(c.sigma());
    hs.fs(c.covariance_matrix().as_slice());
    hs.0
}

/// Logged constraint.
#[derive(Debug, Clone)]
pub struct SimCon {
    pub actor: usize,
    pub con: Con,
}

impl SimCon {
    pub fn test(con: &Con, x: &[f64], nth: u64) -> bool {
        match con {
            Con::Bounds { lo, hi } | Con::Logged { lo, hi } => (0..x.len()).all(|i| x[i] >= lo[i].0 && x[i] <= hi[i].0),
            Con::Box { lo, hi } => x.iter().all(|v| *v >= lo.0 && *v <= hi.0),
            Con::Half { b } => x.iter().sum::<f64>() <= b.0,
            Con::Shell { r } => x.iter().map(|v| v * v).sum::<f64>() >= r.0 * r.0,
            Con::StuckThenOk { n } => nth >= *n,
            Con::Flaky { p, seed } => unit(point_hash(x, *seed)) >= p.0,
            Con::Panics { .. } => true,
            Con::Never => false,
        }
    }
}

impl Constraints for SimCon {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let nth = h().actors[self.actor].cons.len() as u64;
        if let Con::Panics { at, count, one_in, seed } = self.con {
            if (nth >= at && nth - at < count) || (one_in > 0 && mix(point_hash(x.as_slice(), seed)) % one_in == 0) {
                hist::con_check(self.actor, x.as_slice(), false, true);
                hist::fault("constraint_panic");
                std::panic::panic_any(Injected);
            }
        }
        let ok = SimCon::test(&self.con, x.as_slice(), nth);
        hist::con_check(self.actor, x.as_slice(), ok, false);
        if !ok {
            hist::fault("constraint_rejection");
        }
        ok
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(self.clone())
    }
}
