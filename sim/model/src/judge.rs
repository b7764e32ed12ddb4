//! Turns the history of one phase into a report: violations of the single-phase oracles, and the
//! transcript that the lane compares between phases.

use crate::hist::*;
use crate::oracle::{self, Out, What2};
use crate::oracle2;
use crate::plan::*;
use serde::{Deserialize, Serialize};
use simrt::rng::Hash;

pub const FINAL: u64 = u64::MAX;

pub const FIELDS: [&str; 16] = [
    "outcome", "mean", "sigma", "covariance", "eigenvalues", "generation", "function_evals",
    "current best", "overall best", "set of evaluations", "constraint checks", "result",
    "termination data", "printed output", "recorded plot", "order of evaluations",
];

pub fn bit(fs: &[usize]) -> u32 {
    fs.iter().fold(0, |a, f| a | 1 << f)
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    /// (clause, message)
    pub viols: Vec<(String, String)>,
    /// (actor, ordinal, field, hash)
    pub tr: Vec<(u64, u64, u64, u64)>,
    pub checks: Vec<(String, u64)>,
    pub faults: Vec<(String, u64)>,
    pub probes: Vec<(String, u64)>,
    pub event_hash: u64,
    pub sched_hash: u64,
    pub ticks: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub threads: u64,
    pub futex_waits: u64,
    pub spurious: u64,
    pub clock_reads: u64,
    pub entropy_reads: u64,
    pub sim_ns: u64,
    pub evals: u64,
    pub gens: u64,
    pub seeds: Vec<Option<u64>>,
    /// sha-like hash over everything recorded, for the determinism self-test
    pub full_hash: u64,
    /// decisions: (tick, thread), (ordinal, thread)
    pub preempt: Vec<(u64, u16)>,
    pub sync: Vec<(u64, u16)>,
    pub ended: bool,
    pub note: String,
    /// the printed lines, where the plan compares them between phases
    #[serde(default)]
    pub lines: Vec<String>,
}

fn canon(v: f64, neg: bool) -> f64 {
    if neg {
        -v
    } else {
        v
    }
}

fn hf(x: f64) -> u64 {
    let mut h = Hash::new();
    if x.is_nan() {
        h.u(1)
    } else {
        h.f(if x == 0.0 { 0.0 } else { x })
    }
    h.0
}
fn hv(x: &[f64]) -> u64 {
    let mut h = Hash::new();
    for v in x {
        h.u(hf(*v))
    }
    h.0
}
fn hb(x: &Option<(Vec<f64>, f64)>, neg: bool) -> u64 {
    match x {
        None => 7,
        Some((p, v)) => {
            let mut h = Hash::new();
            h.u(hv(p));
            h.u(hf(canon(*v, neg)));
            h.0
        }
    }
}
fn hs(x: &[u8]) -> u64 {
    let mut h = Hash::new();
    h.u(x.len() as u64);
    for c in x.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h.u(u64::from_le_bytes(b));
    }
    h.0
}

fn evs(ev: &[EvalRec], neg: bool) -> (u64, u64) {
    let each: Vec<u64> = ev
        .iter()
        .map(|e| {
            let mut h = Hash::new();
            h.u(hv(&e.x));
            h.u(hf(canon(e.v, neg)));
            h.0
        })
        .collect();
    let mut o = Hash::new();
    each.iter().for_each(|e| o.u(*e));
    let mut s = each;
    s.sort();
    let mut m = Hash::new();
    s.iter().for_each(|e| m.u(*e));
    (m.0, o.0)
}

pub fn transcript(ai: usize, a: &ActorHist, kind: &Kind, stdout: &[u8], out: &mut Vec<(u64, u64, u64, u64)>) {
    let neg = match kind {
        Kind::Cmaes { obj, .. } | Kind::Restart { obj, .. } | Kind::Func { obj, .. } => obj.negate,
    };
    let mut put = |o: u64, f: u64, h: u64| out.push((ai as u64, o, f, h));
    let mut ord = 0;
    let snap = |s: &Snap, o: u64, put: &mut dyn FnMut(u64, u64, u64)| {
        put(o, 1, hv(&s.mean));
        put(o, 2, hf(s.sigma));
        put(o, 3, hv(&s.cov));
        put(o, 4, hv(&s.eig));
        put(o, 5, s.gen as u64);
        put(o, 7, hb(&s.cur, neg));
        put(o, 8, hb(&s.best, neg));
    };
    let outc = |o: &Outcome| match o {
        Outcome::Go => 1,
        Outcome::Injected => 2,
        Outcome::LibPanic(_) => 3,
        Outcome::Saved(_) => 4,
        Outcome::Term(t) => {
            let mut h = Hash::new();
            for r in &t.reasons {
                h.u(*r as u64 + 10);
            }
            h.0
        }
    };
    let mut lastout = 0;
    for (i, s) in a.steps.iter().enumerate() {
        if !s.op.is_gen() && !s.op.is_run() {
            continue;
        }
        let ev = &a.evals[s.e0..s.e1];
        let dirty = ev.iter().any(|e| e.panicked || e.v.is_nan());
        put(ord, 0, outc(&s.out));
        lastout = outc(&s.out);
        snap(&s.after, ord, &mut put);
        if !dirty {
            put(ord, 6, s.after.fevals.wrapping_sub(oracle::prev(a, i).fevals) as u64);
            let (m, o) = evs(ev, neg);
            put(ord, 9, m);
            put(ord, 15, o);
        }
        put(ord, 10, (s.c1 - s.c0) as u64);
        if let Outcome::Term(t) = &s.out {
            let mut h = Hash::new();
            h.u(hb(&t.cur, neg));
            h.u(hb(&t.best, neg));
            h.u(hv(&t.mean));
            put(ord, 12, h.0);
        }
        if let Some(d) = &s.after.plot_debug {
            put(ord, 14, hs(d.as_bytes()));
        }
        ord += 1;
    }
    let dirty = a.evals.iter().any(|e| e.panicked || e.v.is_nan());
    put(FINAL, 0, lastout);
    if let Some(s) = a.steps.last() {
        snap(&s.after, FINAL, &mut put);
        if !dirty {
            put(FINAL, 6, s.after.fevals as u64);
        }
        if let Some(d) = &s.after.plot_debug {
            put(FINAL, 14, hs(d.as_bytes()));
        }
    }
    if !dirty {
        let (m, o) = evs(&a.evals, neg);
        put(FINAL, 9, m);
        put(FINAL, 15, o);
    }
    if let Some(r) = &a.rres {
        let mut h = Hash::new();
        h.u(hb(&r.best, neg));
        h.u(hs(r.reason.as_bytes()));
        h.u(r.runs as u64);
        if !dirty {
            h.u(r.fevals as u64);
        }
        put(FINAL, 11, h.0);
    }
    if let Some((p, v)) = &a.func_res {
        put(FINAL, 11, hb(&Some((p.clone(), *v)), neg));
    }
    if let Some((inj, m)) = &a.panic {
        put(FINAL, 11, if *inj { 3 } else { hs(m.as_bytes()) });
    }
    if a.s1 >= a.s0 && a.s1 <= stdout.len() {
        put(FINAL, 13, hs(&stdout[a.s0..a.s1]));
    }
}

/// The seed an instance reported: the accessor, or for fmin and friends the printed one.
fn seed_of(a: &ActorHist, stdout: &[u8]) -> Option<u64> {
    if let Some(p) = &a.params {
        return Some(p.seed);
    }
    if let Some(s) = a.rseed {
        return Some(s);
    }
    if a.func_res.is_some() {
        let t = String::from_utf8_lossy(&stdout[a.s0..a.s1.max(a.s0)]).to_string();
        let at = t.find("seed=")? + 5;
        return t[at..].split(|c: char| !c.is_ascii_digit()).next()?.parse().ok();
    }
    None
}

/// Runs the oracles that belong to the plan's property.
pub fn judge(plan: &Plan, ph: &Phase, pi: usize, h: &Hist, stdout: &[u8], r: &mut Report) {
    let mut o = Out::default();
    let p = plan.property.as_str();
    for (ai, (a, ac)) in h.actors.iter().zip(&ph.actors).enumerate() {
        oracle::panics(ai, a, &mut o);
        if a.steps.iter().any(|s| matches!(s.out, Outcome::LibPanic(_))) {
            continue;
        }
        match &ac.kind {
            Kind::Cmaes { cfg, ops, .. } => {
                let con = cfg.con.is_some();
                let mut w = What2 { term: false, refine: false, sampling: false, inv: false };
                match p {
                    "C01" if cfg.parallel_update => {
                        oracle::account(ai, a, &mut o);
                        w.refine = true;
                    }
                    "C01" => {
                        if pi == 1 {
                            oracle::account(ai, a, &mut o);
                        }
                    }
                    "C03" => oracle::account(ai, a, &mut o),
                    "C04" => oracle::bests(ai, a, &mut o),
                    "C05" => {
                        oracle::nan(ai, a, &mut o);
                        oracle::bests(ai, a, &mut o);
                        oracle::fresh_points(ai, a, &mut o);
                    }
                    "C06" => {
                        oracle::after_panic(ai, a, &mut o);
                        oracle::bests(ai, a, &mut o);
                        oracle::account(ai, a, &mut o);
                        oracle::fresh_points(ai, a, &mut o);
                        if con && !matches!(cfg.con, Some(Con::Panics { .. })) {
                            oracle::constraints(ai, a, cfg, &mut o);
                        }
                    }
                    "C07" => oracle::time(ai, a, &mut o),
                    "C08" => w.term = true,
                    "C09" => {
                        w.refine = true;
                        w.sampling = true;
                        oracle::fresh_points(ai, a, &mut o);
                    }
                    "C10" => {
                        oracle::constraints(ai, a, cfg, &mut o);
                        w.sampling = true;
                    }
                    "C14" => {
                        if ph.actors.len() == 1 {
                            oracle2::printing(ai, a, cfg.print_gap, stdout, &mut o);
                        }
                    }
                    "C15" => oracle2::saves(ai, a, ops, &mut o),
                    "C16" => oracle2::plot_recording(ai, a, cfg.plot_gap, &mut o),
                    "C17" => w.inv = true,
                    "C18" => oracle::progress(ai, a, cfg, ops, &mut o),
                    "C19" => oracle::ownership(ai, a, &ac.kind, &mut o),
                    _ => {}
                }
                if w.term || w.refine || w.inv || w.sampling {
                    // constraints that depend on where a point lies select among the samples
                    let selects = con && !matches!(cfg.con, Some(Con::Never | Con::StuckThenOk { .. } | Con::Flaky { .. } | Con::Panics { .. }));
                    oracle::model(ai, a, w, selects, &mut o);
                    if p == "C01" {
                        // a question of the decomposition, not of the threads
                        o.v.retain(|v| v.clause != "eigen-mispaired");
                    }
                }
            }
            Kind::Restart { r: rc, .. } => {
                if a.build_err.is_some() {
                    continue;
                }
                let text = String::from_utf8_lossy(&stdout[a.s0.min(stdout.len())..a.s1.max(a.s0).min(stdout.len())]).to_string();
                let runs = if rc.print && a.rres.is_some() { oracle2::parse_runs(&text) } else { None };
                if rc.print && a.rres.is_some() && runs.is_none() {
                    r.probes.push(("restart_output_not_understood".into(), 1));
                }
                match p {
                    "C11" => oracle2::restart_runs(ai, a, rc, &runs, &mut o),
                    "C12" => oracle2::restart_totals(ai, a, rc, &runs, &mut o),
                    "C07" => oracle2::restart_time(ai, a, rc, &runs, &mut o),
                    "C18" => oracle2::restart_progress(ai, a, rc, &mut o),
                    "C19" => oracle::ownership(ai, a, &ac.kind, &mut o),
                    _ => {}
                }
            }
            Kind::Func { max, .. } => {
                if a.func_res.is_some() && matches!(p, "C03" | "C04" | "C18") {
                    oracle2::func(ai, a, *max, &mut o);
                }
                if p == "C19" {
                    oracle::ownership(ai, a, &ac.kind, &mut o);
                }
                if p == "C02" && ph.actors.len() == 1 && a.func_res.is_some() && seed_of(a, stdout).is_none() {
                    o.bad("reported-seed", format!("actor {}: no seed that could be used again was reported", ai));
                }
            }
        }
        if p == "C02" && ph.actors.len() == 1 && a.params.is_some() && a.s1 <= stdout.len() {
            let t = String::from_utf8_lossy(&stdout[a.s0.min(a.s1)..a.s1]).to_string();
            if let (Some(at), Some(s)) = (t.find("seed="), seed_of(a, stdout)) {
                let said: String = t[at + 5..].chars().take_while(|c| !c.is_whitespace() && *c != ',').collect();
                if said != s.to_string() {
                    o.bad("reported-seed", format!("actor {}: the seed printed is {}, the accessor says {}", ai, said, s));
                }
                o.n("printed_seeds_compared");
            }
        }
        if let Some(m) = &a.nested_bad {
            o.bad("nested", format!("actor {}: {}", ai, m));
        }
        o.add("nested_runs", a.nested_runs);
    }
    for v in o.v {
        r.viols.push((v.clause, format!("[phase {}] {}", ph.name, v.msg)));
    }
    for (k, n) in o.checks {
        if n > 0 {
            r.checks.push((k.to_string(), n));
        }
    }
    let mut full = Hash::new();
    full.u(h.events.0);
    for (ai, (a, ac)) in h.actors.iter().zip(&ph.actors).enumerate() {
        r.evals += a.evals.len() as u64;
        r.gens += a.steps.last().map(|s| s.after.gen as u64).unwrap_or(0);
        r.seeds.push(seed_of(a, stdout));
        let mut t = vec![];
        transcript(ai, a, &ac.kind, stdout, &mut t);
        for x in &t {
            full.u(x.3);
        }
        for e in &a.evals {
            full.u(e.t0);
            full.u(e.t1);
            full.u(e.tid as u64);
        }
        full.u(a.cons.len() as u64);
        if plan.cmps.iter().any(|c| (c.a == pi && c.actors.iter().any(|x| x.0 == ai)) || (c.b == pi && c.actors.iter().any(|x| x.1 == ai))) {
            r.tr.extend(t);
        }
    }
    full.u(hs(stdout));
    if plan.lines.iter().any(|l| l.1 == pi || l.0.contains(&pi)) {
        let t = String::from_utf8_lossy(stdout);
        r.lines = t.split_inclusive('\n').map(|l| l.to_string()).collect();
    }
    r.full_hash = full.0;
    r.event_hash = h.events.0;
    for (k, n) in &h.fault_counts {
        r.faults.push((k.to_string(), *n));
    }
    for (k, n) in &h.probes {
        r.probes.push((k.to_string(), *n));
    }
}

/// Compares two phases.
pub fn compare(plan: &Plan, reps: &[Option<Report>], out: &mut Vec<(String, String)>, compared: &mut u64) {
    for c in &plan.cmps {
        let (ra, rb) = match (&reps[c.a], &reps[c.b]) {
            (Some(a), Some(b)) => (a, b),
            _ => continue,
        };
        for &(x, y) in &c.actors {
            let sel = |r: &Report, w: usize| -> Vec<(u64, u64, u64)> {
                r.tr.iter()
                    .filter(|t| t.0 == w as u64 && c.mask & (1 << t.2) != 0 && (!c.final_only || t.1 == FINAL))
                    .map(|t| (t.1, t.2, t.3))
                    .collect()
            };
            let (va, vb) = (sel(ra, x), sel(rb, y));
            *compared += va.len() as u64;
            let mut k = 0;
            while k < va.len() || k < vb.len() {
                let (p, q) = (va.get(k), vb.get(k));
                if p != q {
                    let (o, f) = p.or(q).map(|t| (t.0, t.1)).unwrap();
                    let at = if o == FINAL { "at the end".to_string() } else { format!("after advancing call {}", o) };
                    out.push((
                        format!("twin-{}", FIELDS[f as usize].replace(' ', "-")),
                        format!("{}: actor {} of phase '{}' and actor {} of phase '{}' differ in the {} {}", c.what, x, plan.phases[c.a].name, y, plan.phases[c.b].name, FIELDS[f as usize], at),
                    ));
                    break;
                }
                k += 1;
            }
        }
    }
    if plan.property == "C02" {
        // seeds that nobody gave come from the system's entropy, every time anew
        let mut seen: Vec<(u64, String, u64, usize)> = vec![];
        for (pi, (ph, r)) in plan.phases.iter().zip(reps).enumerate() {
            let r = match r {
                Some(r) => r,
                None => continue,
            };
            for (ai, ac) in ph.actors.iter().enumerate() {
                let unseeded = match &ac.kind {
                    Kind::Cmaes { cfg, .. } => cfg.seed.is_none(),
                    Kind::Restart { r, .. } => r.seed.is_none(),
                    _ => ph.actors.len() == 1,
                };
                let s = match r.seeds.get(ai) {
                    Some(Some(s)) if unseeded => *s,
                    _ => continue,
                };
                let name = format!("actor {} of phase '{}'", ai, ph.name);
                for (t, n, e, q) in &seen {
                    *compared += 1;
                    if *t == s && (*q == pi || *e != ph.sim.entropy_seed) {
                        out.push(("shared-seed".into(), format!("{} and {}, both without a seed, use the same one ({})", n, name, s)));
                    }
                }
                seen.push((s, name, ph.sim.entropy_seed, pi));
            }
        }
    }
    for (parts, whole) in &plan.lines {
        let w = match &reps[*whole] {
            Some(w) => w,
            None => continue,
        };
        let alone: Vec<&Report> = parts.iter().filter_map(|p| reps[*p].as_ref()).collect();
        if alone.len() != parts.len() {
            continue;
        }
        *compared += w.lines.len() as u64;
        let mut all: Vec<&String> = alone.iter().flat_map(|r| r.lines.iter()).collect();
        let mut got: Vec<&String> = w.lines.iter().collect();
        all.sort();
        got.sort();
        let name = &plan.phases[*whole].name;
        if all != got {
            let k = all.iter().zip(&got).take_while(|(a, b)| a == b).count();
            let l = got.get(k).or(all.get(k)).unwrap();
            out.push((
                "print-interleaved".into(),
                format!("the lines printed in phase '{}' are not the ones that the same instances print alone ({} and {} lines); the first that only one side has is {:?}", name, got.len(), all.len(), l),
            ));
            continue;
        }
        for (p, r) in parts.iter().zip(&alone) {
            let mut it = w.lines.iter();
            if !r.lines.iter().all(|l| it.any(|x| x == l)) {
                out.push(("print-reordered".into(), format!("the lines that phase '{}' prints appear in another order in phase '{}'", plan.phases[*p].name, name)));
                break;
            }
        }
    }
}
