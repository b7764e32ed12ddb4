//! Executes a phase of a plan against the real library. Instrumented: every basic block in here, in
//! cmaes, rayon, rayon-core and crossbeam is a preemption point of the simulated scheduler.

mod drive;
mod obj;

use model::hist::{self, h};
use model::plan::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn io_plan(p: &IoPlan) -> simrt::disk::FaultPlan {
    use simrt::disk as d;
    d::FaultPlan {
        at: p
            .at
            .iter()
            .map(|(o, n, f)| {
                (
                    match o {
                        IoOp::Open => d::Op::Open,
                        IoOp::Write => d::Op::Write,
                        IoOp::Mkdir => d::Op::Mkdir,
                        IoOp::Close => d::Op::Close,
                        IoOp::Sync => d::Op::Sync,
                    },
                    *n,
                    match f {
                        IoFault::Enospc => d::Fault::Err(28),
                        IoFault::Eio => d::Fault::Err(5),
                        IoFault::Eacces => d::Fault::Err(13),
                        IoFault::Emfile => d::Fault::Err(24),
                        IoFault::Eintr => d::Fault::Err(4),
                        IoFault::Ebadf => d::Fault::Err(9),
                        IoFault::Edquot => d::Fault::Err(122),
                        IoFault::Short(n) => d::Fault::Short(*n),
                    },
                )
            })
            .collect(),
        capacity: p.capacity,
        max_write: p.max_write,
        eintr_every: p.eintr_every,
    }
}

pub fn sim_config(s: &SimPlan, scratch: &str) -> simrt::Config {
    simrt::Config {
        policy: match &s.policy {
            Policy::Coop => simrt::Policy::Coop,
            Policy::Random { mean } => simrt::Policy::Random { mean: *mean },
            Policy::Pct { depth, span } => simrt::Policy::Pct { depth: *depth, span: *span },
            Policy::RoundRobin { slice } => simrt::Policy::RoundRobin { slice: *slice },
            Policy::Stall { victim, until, mean } => simrt::Policy::Stall {
                victim: *victim,
                until: *until,
                mean: *mean,
            },
            Policy::Explicit { preempt, sync } => simrt::Policy::Explicit(simrt::Decisions {
                preempt: preempt.clone(),
                sync: sync.clone(),
            }),
        },
        sched_seed: s.sched_seed,
        entropy_seed: s.entropy_seed,
        workers: s.workers,
        tick_budget: s.tick_budget,
        switch_budget: 60_000_000,
        spurious: s.spurious.0,
        leaps: s.leaps.clone(),
        wall_jumps: s.wall_jumps.clone(),
        stdout_faults: io_plan(&s.stdout),
        disk_faults: io_plan(&s.disk),
        scratch: scratch.to_string(),
    }
}

fn run_actor(i: usize, a: &Actor, scratch: &str) {
    let r = catch_unwind(AssertUnwindSafe(|| match &a.kind {
        Kind::Cmaes { cfg, obj, ops } => drive::cmaes(i, cfg, obj, ops, scratch),
        Kind::Restart { r, obj } => drive::restart(i, r, obj),
        Kind::Func { mean, sigma, max, par, obj } => {
            drive::func(i, mean, sigma.0, *max, *par, obj)
        }
    }));
    if let Err(p) = r {
        h().actors[i].panic = Some(drive::classify(&p));
    }
    drive::finished(i);
}

/// Runs all actors of the phase in this process under the simulator.
pub fn run_phase(ph: &Phase, scratch: &str) -> (simrt::Stats, simrt::Decisions) {
    hist::reset(ph.actors.len());
    std::env::set_var("RAYON_NUM_THREADS", ph.sim.workers.to_string());
    std::panic::set_hook(Box::new(|_| {}));
    simrt::start(sim_config(&ph.sim, scratch));
    let mut handles = vec![];
    for (i, a) in ph.actors.iter().enumerate() {
        if let Some(n) = a.place {
            let a = a.clone();
            let scratch = scratch.to_string();
            handles.push(std::thread::spawn(move || {
                if n == 0 {
                    run_actor(i, &a, &scratch);
                } else {
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
                    pool.install(|| run_actor(i, &a, &scratch));
                }
            }));
        }
    }
    let here: Vec<(usize, &Actor)> = ph.actors.iter().enumerate().filter(|a| a.1.place.is_none()).collect();
    if let (Some(seed), true) = (ph.turns, here.len() > 1) {
        let r = catch_unwind(AssertUnwindSafe(|| {
            drive::interleaved(&here, seed, scratch, &|i| run_actor(i, &ph.actors[i], scratch))
        }));
        if let Err(e) = r {
            for (i, _) in &here {
                if !h().actors[*i].done {
                    h().actors[*i].panic = Some(drive::classify(&e));
                    drive::finished(*i);
                }
            }
        }
    } else {
        for (i, a) in here {
            run_actor(i, a, scratch);
        }
    }
    for hd in handles {
        let _ = hd.join();
    }
    simrt::stop()
}
