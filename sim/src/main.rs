//! Deterministic simulation driver: generates seeded plans, runs every phase of every plan in a forked
//! child under the simulator, judges the recorded histories, shrinks and replays violations.

mod shrink;

use model::gen;
use model::judge::{self, Report};
use model::plan::*;
use serde::{Deserialize, Serialize};
use simrt::rng::{mix, Hash};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

static mut REPORT_FD: i32 = -1;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub index: u64,
    pub clause: String,
    pub msg: String,
    pub phase: Option<usize>,
    pub plan: Plan,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub clause: String,
    pub message: String,
    pub verif_seed: u64,
    pub index: u64,
    pub how_to_replay: String,
    pub shrink_steps: Vec<String>,
    pub phase_hashes: Vec<u64>,
    pub plan: Plan,
    pub original_plan: Plan,
}

/// What one execution of a plan produced.
#[derive(Default)]
pub struct Exec {
    /// clause, message, phase
    pub viols: Vec<(String, String, Option<usize>)>,
    pub reps: Vec<Option<Report>>,
    pub compared: u64,
    /// the harness itself failed
    pub broken: Option<String>,
    pub plan: Option<Plan>,
}

fn fatal(f: simrt::Fatal) {
    let (k, m) = match f {
        simrt::Fatal::Deadlock => ("deadlock", "every thread of the process is blocked for ever"),
        simrt::Fatal::TickBudget => ("hang", "the step budget was used up without finishing"),
        simrt::Fatal::SwitchBudget => ("hang", "the scheduling budget was used up without finishing"),
        simrt::Fatal::TooManyThreads => ("threads", "too many threads"),
    };
    let mut r = Report::default();
    r.viols.push((k.into(), m.into()));
    fill(&mut r, &simrt::snapshot_stats(), simrt::decisions());
    send(&r);
    unsafe { simrt::sys::raw_exit(97) }
}

fn fill(r: &mut Report, s: &simrt::Stats, d: &simrt::Decisions) {
    r.sched_hash = s.sched_hash;
    r.ticks = s.ticks;
    r.switches = s.switches;
    r.preemptions = s.preemptions;
    r.threads = s.threads;
    r.futex_waits = s.futex_waits;
    r.spurious = s.spurious;
    r.clock_reads = s.clock_reads;
    r.entropy_reads = s.entropy_reads;
    r.sim_ns = s.sim_ns;
    r.preempt = d.preempt.clone();
    r.sync = d.sync.clone();
    for (k, n) in [("scheduled_machine_pause", s.leaps), ("wall_clock_step", s.wall_jumps), ("spurious_wakeup", s.spurious), ("preemption", s.preemptions)] {
        if n > 0 {
            r.faults.push((k.into(), n));
        }
    }
    for (k, n) in simrt::disk_fired() {
        if *n > 0 {
            r.faults.push((format!("io_{}", k), *n));
        }
    }
}

fn send(r: &Report) {
    let b = serde_json::to_vec(r).unwrap_or_default();
    let mut at = 0;
    while at < b.len() {
        let n = simrt::sys::raw_write(unsafe { REPORT_FD }, &b[at..]);
        if n <= 0 {
            break;
        }
        at += n as usize;
    }
}

fn child(plan: &Plan, pi: usize, scratch: &str, fd: i32) -> ! {
    unsafe { REPORT_FD = fd };
    let ph = &plan.phases[pi];
    let marathon = plan.scenario == "marathon";
    unsafe {
        let lim = |r, v: u64| {
            let l = libc::rlimit { rlim_cur: v, rlim_max: v + 5 };
            libc::setrlimit(r, &l);
        };
        lim(libc::RLIMIT_CPU, if marathon { 300 } else { 60 });
        lim(libc::RLIMIT_CORE, 0);
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    simrt::set_fatal_hook(fatal);
    let (st, dec) = scn::run_phase(ph, scratch);
    let mut r = Report::default();
    let ok = catch_unwind(AssertUnwindSafe(|| {
        judge::judge(plan, ph, pi, model::hist::h(), simrt::captured_stdout(), &mut r);
    }));
    if let Err(e) = ok {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        r = Report::default();
        r.note = format!("harness: the oracle panicked: {}", m);
    }
    fill(&mut r, &st, &dec);
    r.ended = true;
    send(&r);
    unsafe { simrt::sys::raw_exit(0) }
}

fn wipe(dir: &str) {
    let _ = std::fs::remove_dir_all(dir);
    let _ = std::fs::create_dir_all(dir);
}

fn touches_disk(ph: &Phase) -> bool {
    ph.actors.iter().any(|a| matches!(&a.kind, Kind::Cmaes { ops, .. } if ops.iter().any(|o| matches!(o, Op::SavePlot { .. }))))
}

/// Runs one phase in a forked child.
pub fn run_child(plan: &Plan, pi: usize, scratch: &str) -> Result<Report, String> {
    if touches_disk(&plan.phases[pi]) {
        wipe(scratch);
    }
    let mut p = [0i32; 2];
    unsafe {
        if libc::pipe(p.as_mut_ptr()) != 0 {
            return Err("pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Err("fork".into());
        }
        if pid == 0 {
            libc::close(p[0]);
            child(plan, pi, scratch, p[1]);
        }
        libc::close(p[1]);
        let mut buf = Vec::with_capacity(1 << 14);
        let mut tmp = [0u8; 1 << 16];
        let t0 = Instant::now();
        let mut timed_out = false;
        loop {
            let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
            let k = libc::poll(&mut pf, 1, 1000);
            if k == 0 {
                if t0.elapsed().as_secs() > 600 {
                    libc::kill(pid, libc::SIGKILL);
                    timed_out = true;
                    break;
                }
                continue;
            }
            let n = libc::read(p[0], tmp.as_mut_ptr() as *mut _, tmp.len());
            if n < 0 && *libc::__errno_location() == libc::EINTR {
                continue;
            }
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if timed_out {
            return Err("the simulated process made no progress in 600 s of real time".into());
        }
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGKILL {
                return Err("the simulated process was killed from outside".into());
            }
            let mut r = Report::default();
            let (k, m) = match sig {
                libc::SIGXCPU => ("hang", "the process computed for 60 s of CPU time without finishing".to_string()),
                libc::SIGABRT => ("abort", "the process aborted".to_string()),
                s => ("crash", format!("the process died from signal {}", s)),
            };
            r.viols.push((k.into(), m));
            return Ok(r);
        }
        let code = libc::WEXITSTATUS(st);
        if code != 0 && code != 97 {
            let mut r = Report::default();
            r.viols.push(("exit".into(), format!("the process exited with status {} in the middle of the run", code)));
            return Ok(r);
        }
        let r: Report = serde_json::from_slice(&buf).map_err(|e| format!("report: {}", e))?;
        if r.note.starts_with("harness") {
            return Err(r.note);
        }
        Ok(r)
    }
}

/// Runs a whole plan.
pub fn exec(plan: &Plan, scratch: &str) -> Exec {
    let mut x = Exec::default();
    let mut p = plan.clone();
    for pi in 0..p.phases.len() {
        // seeds reported by earlier phases
        for &(tp, ta, fp, fa) in &plan.seeds_from {
            if tp != pi || p.phases.len() <= fp {
                continue;
            }
            let s = x.reps.get(fp).and_then(|r: &Option<Report>| r.as_ref()).and_then(|r| r.seeds.get(fa).cloned().flatten());
            if let Some(s) = s {
                match &mut p.phases[pi].actors[ta].kind {
                    Kind::Cmaes { cfg, .. } => cfg.seed = Some(s),
                    Kind::Restart { r, .. } => r.seed = Some(s),
                    _ => {}
                }
            } else {
                // nothing to compare with
                p.cmps.retain(|c| c.b != pi && c.a != pi);
            }
        }
        match run_child(&p, pi, scratch) {
            Ok(r) => {
                for (c, m) in &r.viols {
                    x.viols.push((c.clone(), m.clone(), Some(pi)));
                }
                let dead = !r.ended;
                x.reps.push(Some(r));
                if dead {
                    while x.reps.len() < p.phases.len() {
                        x.reps.push(None);
                    }
                    x.plan = Some(p);
                    return x;
                }
            }
            Err(e) => {
                x.broken = Some(e);
                while x.reps.len() < p.phases.len() {
                    x.reps.push(None);
                }
                x.plan = Some(p);
                return x;
            }
        }
    }
    let mut v = vec![];
    judge::compare(&p, &x.reps, &mut v, &mut x.compared);
    for (c, m) in v {
        x.viols.push((c, m, None));
    }
    x.plan = Some(p);
    x
}

// ---------------------------------------------------------------------------------------------

#[derive(Default, Serialize, Deserialize)]
struct Agg {
    plans: u64,
    phases: u64,
    hashes: Vec<u64>,
    sched: Vec<u64>,
    checks: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    scen: BTreeMap<String, u64>,
    policies: BTreeMap<String, u64>,
    ticks: u64,
    max_ticks: u64,
    switches: u64,
    preemptions: u64,
    threads: u64,
    futex_waits: u64,
    clock_reads: u64,
    entropy_reads: u64,
    sim_ns: u128,
    evals: u64,
    gens: u64,
    compared: u64,
    det_pairs: u64,
    det_bad: Vec<u64>,
    viols: Vec<Viol>,
    known: BTreeMap<usize, u64>,
    broken: Vec<String>,
    samples: Vec<serde_json::Value>,
    wall_max_ms: u64,
}

fn add(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    *m.entry(k.to_string()).or_insert(0) += n;
}

fn policy_name(p: &Policy) -> &'static str {
    match p {
        Policy::Coop => "cooperative",
        Policy::Random { .. } => "random",
        Policy::Pct { .. } => "pct",
        Policy::RoundRobin { .. } => "round_robin",
        Policy::Stall { .. } => "stalled_thread",
        Policy::Explicit { .. } => "explicit",
    }
}

impl Agg {
    fn take(&mut self, plan: &Plan, x: &Exec) {
        self.plans += 1;
        add(&mut self.scen, &plan.scenario, 1);
        self.compared += x.compared;
        let mut h = Hash::new();
        let (mut gens, mut checks) = (0, x.compared);
        for (ph, r) in plan.phases.iter().zip(&x.reps) {
            let r = match r {
                Some(r) => r,
                None => continue,
            };
            self.phases += 1;
            add(&mut self.policies, policy_name(&ph.sim.policy), 1);
            h.u(r.event_hash);
            h.u(r.sched_hash);
            let mut sh = Hash::new();
            sh.u(r.sched_hash);
            sh.u(r.event_hash);
            self.sched.push(sh.0);
            for (k, n) in &r.checks {
                add(&mut self.checks, k, *n);
                checks += n;
            }
            for (k, n) in &r.faults {
                add(&mut self.faults, k, *n);
            }
            for (k, n) in &r.probes {
                add(&mut self.probes, k, *n);
            }
            self.ticks += r.ticks;
            self.max_ticks = self.max_ticks.max(r.ticks);
            self.switches += r.switches;
            self.preemptions += r.preemptions;
            self.threads += r.threads;
            self.futex_waits += r.futex_waits;
            self.clock_reads += r.clock_reads;
            self.entropy_reads += r.entropy_reads;
            self.sim_ns += r.sim_ns as u128;
            self.evals += r.evals;
            gens += r.evals;
            self.gens += r.gens;
        }
        if gens > 1 && checks > 0 && x.reps.iter().all(|r| r.as_ref().map_or(false, |r| r.ended)) {
            self.hashes.push(h.0);
        }
        if self.samples.len() < 2 {
            self.samples.push(serde_json::json!({
                "index": plan.index,
                "plan": plan,
                "evaluations_per_phase": x.reps.iter().map(|r| r.as_ref().map(|r| r.evals)).collect::<Vec<_>>(),
                "preemptions_per_phase": x.reps.iter().map(|r| r.as_ref().map(|r| r.preemptions)).collect::<Vec<_>>(),
                "event_hash_per_phase": x.reps.iter().map(|r| r.as_ref().map(|r| format!("{:016x}", r.event_hash))).collect::<Vec<_>>(),
            }));
        }
    }

    fn merge(&mut self, o: Agg) {
        self.plans += o.plans;
        self.phases += o.phases;
        self.hashes.extend(o.hashes);
        self.sched.extend(o.sched);
        for (a, b) in [
            (&mut self.checks, o.checks),
            (&mut self.faults, o.faults),
            (&mut self.probes, o.probes),
            (&mut self.scen, o.scen),
            (&mut self.policies, o.policies),
        ] {
            for (k, n) in b {
                *a.entry(k).or_insert(0) += n;
            }
        }
        for (k, n) in o.known {
            *self.known.entry(k).or_insert(0) += n;
        }
        self.ticks += o.ticks;
        self.max_ticks = self.max_ticks.max(o.max_ticks);
        self.switches += o.switches;
        self.preemptions += o.preemptions;
        self.threads += o.threads;
        self.futex_waits += o.futex_waits;
        self.clock_reads += o.clock_reads;
        self.entropy_reads += o.entropy_reads;
        self.sim_ns += o.sim_ns;
        self.evals += o.evals;
        self.gens += o.gens;
        self.compared += o.compared;
        self.det_pairs += o.det_pairs;
        self.det_bad.extend(o.det_bad);
        self.viols.extend(o.viols);
        self.broken.extend(o.broken);
        self.samples.extend(o.samples);
        self.wall_max_ms = self.wall_max_ms.max(o.wall_max_ms);
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Known {
    property: String,
    clause: String,
    contains: String,
    what: String,
}

/// Lines `known: property=C01 clause=x contains="..." what=...`; `fixed:` lines suppress nothing.
fn known(root: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default().lines() {
        let l = match l.strip_prefix("known: ") {
            Some(l) => l,
            None => continue,
        };
        let get = |k: &str| -> String {
            match l.find(k) {
                None => String::new(),
                Some(i) => {
                    let t = &l[i + k.len()..];
                    if let Some(q) = t.strip_prefix('"') {
                        q.split('"').next().unwrap_or("").to_string()
                    } else {
                        t.split(' ').next().unwrap_or("").to_string()
                    }
                }
            }
        };
        let what = l.find("what=").map(|i| l[i + 5..].to_string()).unwrap_or_default();
        v.push(Known { property: get("property="), clause: get("clause="), contains: get("contains="), what });
    }
    v
}
fn matches_known(kf: &[Known], prop: &str, clause: &str, msg: &str) -> Option<usize> {
    kf.iter().position(|k| k.property == prop && k.clause == clause && !k.contains.is_empty() && msg.contains(&k.contains))
}

fn shared() -> &'static AtomicU64 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let a = &*(p as *const AtomicU64);
        a.store(u64::MAX, Ordering::SeqCst);
        a
    }
}

struct Opts {
    prop: String,
    seed: u64,
    deep: bool,
    count: u64,
    wall: f64,
    root: String,
    det: u64,
    from: u64,
    keep: bool,
}

fn budget(prop: &str, deep: bool) -> (u64, f64) {
    let n = match prop {
        "C01" => 12000,
        "C02" => 16000,
        "C08" => 20000,
        "C09" => 16000,
        "C13" => 8000,
        "C14" => 12000,
        "C15" => 3000,
        "C20" => 16000,
        _ => 20000,
    };
    if deep {
        (n * 60, 660.0)
    } else {
        (n, 60.0)
    }
}

fn lane(l: u64, lanes: u64, cpu: usize, o: &Opts, kf: &[Known], min: &AtomicU64, start: Instant, dir: &str) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
    let scratch = format!("{}/s{}", dir, l);
    wipe(&scratch);
    let mut a = Agg::default();
    let mut i = o.from + l;
    while i < o.from + o.count {
        if start.elapsed().as_secs_f64() > o.wall || (!o.keep && i > min.load(Ordering::SeqCst)) {
            break;
        }
        let t = Instant::now();
        let plan = gen::plan(&o.prop, o.seed, i, o.deep);
        let x = exec(&plan, &scratch);
        a.take(&plan, &x);
        if i - o.from < o.det || (o.det > 0 && i % 101 == 100) {
            // executed again from its file form
            let text = serde_json::to_string(&plan).unwrap();
            let again: Plan = serde_json::from_str(&text).unwrap();
            let y = exec(&again, &scratch);
            a.det_pairs += 1;
            if format!("{:?}", again) != format!("{:?}", plan) {
                a.broken.push(format!("index {}: the plan does not survive being written down", i));
            }
            let h = |x: &Exec| x.reps.iter().map(|r| r.as_ref().map(|r| (r.full_hash, r.sched_hash, r.ticks))).collect::<Vec<_>>();
            if h(&x) != h(&y) {
                a.det_bad.push(i);
            }
        }
        a.wall_max_ms = a.wall_max_ms.max(t.elapsed().as_millis() as u64);
        if std::env::var("DST_SLOW").is_ok() && t.elapsed().as_millis() > 400 {
            eprintln!("slow {} {} {} ms {} ticks {:?}", i, plan.scenario, t.elapsed().as_millis(), plan.phases.len(), x.reps.iter().map(|r| r.as_ref().map(|r| (r.ticks, r.evals))).collect::<Vec<_>>());
        }
        if let Some(b) = x.broken {
            a.broken.push(format!("index {}: {}", i, b));
        }
        let mut first = true;
        for (c, m, ph) in x.viols {
            if let Some(k) = matches_known(kf, &o.prop, &c, &m) {
                *a.known.entry(k).or_insert(0) += 1;
                continue;
            }
            if first || o.keep {
                first = false;
                a.viols.push(Viol { index: i, clause: c, msg: m, phase: ph, plan: plan.clone() });
                min.fetch_min(i, Ordering::SeqCst);
            }
        }
        i += lanes;
    }
    std::fs::write(format!("{}/lane{}.json", dir, l), serde_json::to_vec(&a).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
}

fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set);
        (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect()
    }
}

fn explore(o: &Opts, kf: &[Known], dir: &str, start: Instant) -> Agg {
    let cpus = cpus();
    let lanes = cpus.len().clamp(1, 16) as u64;
    let min = shared();
    let mut pids = vec![];
    for l in 0..lanes {
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                let r = catch_unwind(AssertUnwindSafe(|| lane(l, lanes, cpus[l as usize % cpus.len()], o, kf, min, start, dir)));
                libc::_exit(if r.is_ok() { 0 } else { 3 });
            }
            pids.push(pid);
        }
    }
    let mut all = Agg::default();
    for (l, pid) in pids.iter().enumerate() {
        let mut st = 0;
        unsafe { while libc::waitpid(*pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {} }
        match std::fs::read(format!("{}/lane{}.json", dir, l)).ok().and_then(|b| serde_json::from_slice::<Agg>(&b).ok()) {
            Some(a) => all.merge(a),
            None => all.broken.push(format!("lane {} ended with status {}", l, st)),
        }
    }
    all.viols.sort_by_key(|v| v.index);
    all
}

fn check(o: &Opts) -> i32 {
    let start = Instant::now();
    let dir = format!("/tmp/dst-{}", std::process::id());
    wipe(&dir);
    let kf = known(&o.root);
    let a = explore(o, &kf, &dir, start);
    let wall = start.elapsed().as_secs_f64();
    let mut code = 0;
    for (i, k) in kf.iter().enumerate() {
        if k.property == o.prop {
            println!("KNOWN-FINDING: property={} {} (seen {} times in this run)", k.property, k.what, a.known.get(&i).unwrap_or(&0));
        }
    }
    if !a.det_bad.is_empty() {
        eprintln!("HARNESS: executions of the same plan differed at indexes {:?}", a.det_bad);
    }
    for b in a.broken.iter().take(5) {
        eprintln!("HARNESS: {}", b);
    }
    let mut nviol = 0;
    let mut unrepro = 0;
    let mut done: HashSet<String> = HashSet::new();
    if o.keep {
        let mut by: BTreeMap<String, (u64, Viol)> = BTreeMap::new();
        for v in &a.viols {
            by.entry(format!("{} / {}", v.clause, v.plan.scenario)).or_insert((0, v.clone())).0 += 1;
        }
        for (k, (n, v)) in by {
            println!("{:6} x {}: index {}: {}", n, k, v.index, v.msg);
        }
    } else {
        for v in &a.viols {
            if done.contains(&v.clause) || nviol >= 1 || unrepro >= 3 {
                continue;
            }
            match shrink::shrink(v, &dir, 45.0, &|c, m| matches_known(&kf, &o.prop, c, m).is_some()) {
                Some((plan, msg, steps, hashes)) => {
                    nviol += 1;
                    let rdir = format!("{}/replays", o.root);
                    let _ = std::fs::create_dir_all(&rdir);
                    let path = format!("{}/{}-{}-{}.json", rdir, o.prop, o.seed, v.index);
                    let rp = Replay {
                        property: o.prop.clone(),
                        clause: v.clause.clone(),
                        message: msg.clone(),
                        verif_seed: o.seed,
                        index: v.index,
                        how_to_replay: format!("cd {} && ./run.sh replay {}", o.root, path),
                        shrink_steps: steps,
                        phase_hashes: hashes,
                        plan,
                        original_plan: v.plan.clone(),
                    };
                    std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap()).unwrap();
                    println!("clause {}: {}", v.clause, msg);
                    println!("seed {} index {} scenario {}", o.seed, v.index, v.plan.scenario);
                    println!("VIOLATION property={} replay={}", o.prop, path);
                    code = 1;
                    done.insert(v.clause.clone());
                }
                None => {
                    unrepro += 1;
                    eprintln!("HARNESS: index {} reported '{}' ({}) but repeating the plan did not", v.index, v.clause, v.msg);
                }
            }
        }
    }
    if code == 0 && (unrepro > 0 || !a.broken.is_empty() || a.plans == 0) {
        code = 2;
    }
    evidence(o, &a, wall, start.elapsed().as_secs_f64(), nviol);
    println!(
        "{}: {} plans, {} simulated processes, {} evaluations, {} distinct histories, {:.1} s, slowest plan {} ms, max {} ticks",
        o.prop,
        a.plans,
        a.phases,
        a.evals,
        a.hashes.iter().collect::<HashSet<_>>().len(),
        wall,
        a.wall_max_ms,
        a.max_ticks
    );
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn evidence(o: &Opts, a: &Agg, search: f64, wall: f64, nviol: u64) {
    let d: HashSet<u64> = a.hashes.iter().cloned().collect();
    let s: HashSet<u64> = a.sched.iter().cloned().collect();
    let h = search.max(1e-9) / 3600.0;
    let mut samples = a.samples.clone();
    samples.truncate(3);
    let j = serde_json::json!({
        "property": o.prop,
        "tier": if o.deep { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.plans,
            "distinct_nontrivial": d.len(),
            "rule": "One evaluation = one seeded plan (configuration, objective, fault schedule, thread schedule) executed under the simulator, possibly as several twin processes. Non-trivial: every process of the plan finished, at least two objective evaluations were made and at least one oracle check or transcript comparison was decided. Distinct: different hash over (order, thread and coordinates of all evaluations; all scheduling decisions) of its processes.",
            "samples": samples,
            "simulated_processes": a.phases,
            "simulated_runs_per_hour": (a.phases as f64 / h) as u64,
            "seeds_per_hour": (a.plans as f64 / h) as u64,
            "simulated_time_s": a.sim_ns as f64 / 1e9,
            "objective_evaluations": a.evals,
            "generations": a.gens,
            "fault_kinds_injected": a.faults,
            "oracle_checks": a.checks,
            "transcript_items_compared": a.compared,
            "probes": a.probes,
            "scenarios": a.scen,
            "scheduling_policies": a.policies,
            "distinct_interleavings": s.len(),
            "interleaving_measure": "hash of the sequence of scheduling decisions (tick, thread) combined with the event order",
            "preemption_points": a.ticks,
            "context_switches": a.switches,
            "preemptions": a.preemptions,
            "threads_simulated": a.threads,
            "futex_waits": a.futex_waits,
            "clock_reads_served": a.clock_reads,
            "entropy_reads_served": a.entropy_reads,
            "determinism_pairs": a.det_pairs,
            "determinism_mismatches": a.det_bad.len(),
            "real_components": ["cmaes (built from /repo's working tree)", "rayon", "rayon-core", "crossbeam", "nalgebra", "statrs", "rand, rand_chacha", "plotters, image (plot files)", "Rust std threads, locks and I/O code"],
            "stub_components": ["thread scheduler and futexes", "monotonic and wall clocks", "system entropy", "stdout", "disk faults in front of a scratch directory", "objective functions and constraints"],
        },
        "assumptions": [
            "Preemption points are the basic blocks of cmaes, rayon, rayon-core, crossbeam and of the harness, plus every futex, clock and I/O call; sequentially consistent memory.",
            "Objective functions are deterministic unless a plan says otherwise."
        ],
        "wall_s": wall,
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.root));
    let p = format!("{}/evidence/{}.json", o.root, o.prop);
    std::fs::write(&p, serde_json::to_vec_pretty(&j).unwrap()).unwrap();
}

fn replay(path: &str) -> i32 {
    let rp: Replay = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let dir = format!("/tmp/dst-replay-{}", std::process::id());
    wipe(&dir);
    let x = exec(&rp.plan, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    if let Some(b) = x.broken {
        eprintln!("HARNESS: {}", b);
        return 2;
    }
    let hashes: Vec<u64> = x.reps.iter().map(|r| r.as_ref().map_or(0, |r| r.full_hash)).collect();
    println!("history hashes {:x?} recorded {:x?}: {}", hashes, rp.phase_hashes, if hashes == rp.phase_hashes { "identical execution" } else { "different execution" });
    for (c, m, _) in &x.viols {
        println!("{}: {}", c, m);
    }
    if x.viols.iter().any(|v| v.0 == rp.clause) {
        println!("VIOLATION property={} replay={}", rp.property, path);
        1
    } else {
        println!("not reproduced on this tree");
        0
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("DST_ROOT").unwrap_or("/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let deep = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") | Some("survey") => {
            let prop = args[2].clone();
            let (n, w) = budget(&prop, deep);
            let o = Opts {
                prop,
                seed,
                deep,
                count: env("DST_COUNT").unwrap_or(n),
                wall: env("DST_WALL").map_or(w, |x| x as f64),
                root,
                det: env("DST_DET").unwrap_or(24),
                from: env("DST_FROM").unwrap_or(0),
                keep: args[1] == "survey",
            };
            check(&o)
        }
        Some("replay") => replay(&args[2]),
        Some("plan") => {
            let p = gen::plan(&args[2], seed, args[3].parse().unwrap(), deep);
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        Some("one") => {
            let p = gen::plan(&args[2], seed, args[3].parse().unwrap(), deep);
            let dir = format!("/tmp/dst-one-{}", std::process::id());
            wipe(&dir);
            let x = exec(&p, &dir);
            for v in &x.viols {
                println!("{} {:?}: {}", v.0, v.2, v.1);
            }
            println!("{:?} compared {} broken {:?}", x.reps.iter().map(|r| r.as_ref().map(|r| (r.ticks, r.evals, r.full_hash, r.checks.clone()))).collect::<Vec<_>>(), x.compared, x.broken);
            let _ = std::fs::remove_dir_all(&dir);
            0
        }
        _ => {
            eprintln!("usage: dst check|survey ID | replay FILE | plan ID INDEX | one ID INDEX");
            2
        }
    };
    let _ = mix(0);
    std::process::exit(code)
}
