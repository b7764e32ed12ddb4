//! Simulation runtime: a baton scheduler for real OS threads, a simulated clock, seeded entropy and
//! a faulty file/stdout layer, all interposed below std/rayon/nalgebra/image at the libc boundary.
//!
//! Exactly one registered thread runs at a time (it "holds the baton"); all state in `S` is only
//! touched by that thread. Preemption points are the basic-block edges of the crates built with
//! sancov (`__sanitizer_cov_trace_pc`) and every interposed call.
//!
//! This crate is itself never instrumented and uses no std synchronisation.
#![allow(static_mut_refs, invalid_runtime_symbol_definitions, clippy::missing_safety_doc)]

pub mod disk;
pub mod rng;
pub mod sys;

use rng::{Hash, Rng};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 512;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Free,
    Runnable,
    Futex,
    Join,
    Sleep,
    Exited,
}

pub struct Th {
    turn: AtomicU32,
    st: St,
    addr: usize,
    deadline: u64,
    realtime: bool,
    timed_out: bool,
    prio: i64,
    pthread: usize,
    join_target: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// Runs a thread until it blocks; round robin at blocking points.
    Coop,
    /// Random slices with the given mean length (in ticks), random successor.
    Random { mean: u64 },
    /// Priority based with `depth` random priority change points within `span` ticks.
    Pct { depth: u32, span: u64 },
    /// Fixed slices, cyclic order.
    RoundRobin { slice: u64 },
    /// Like Random, but thread `victim` only runs when nothing else can until `until` ticks.
    Stall { victim: u16, until: u64, mean: u64 },
    /// Replays a recorded list of non-default decisions.
    Explicit(Decisions),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Decisions {
    /// (tick, target): preempt the running thread at the first preemption point at or after tick.
    pub preempt: Vec<(u64, u16)>,
    /// (ordinal of sync decision, target): non-default choice there.
    pub sync: Vec<(u64, u16)>,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub policy: Policy,
    pub sched_seed: u64,
    pub entropy_seed: u64,
    pub workers: usize,
    pub tick_budget: u64,
    pub switch_budget: u64,
    /// Probability of a spurious futex wake-up per wait.
    pub spurious: f64,
    /// (tick, ns): whole-machine pauses.
    pub leaps: Vec<(u64, u64)>,
    /// (tick, ns signed): wall-clock (CLOCK_REALTIME) steps.
    pub wall_jumps: Vec<(u64, i64)>,
    pub stdout_faults: disk::FaultPlan,
    pub disk_faults: disk::FaultPlan,
    pub scratch: String,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            policy: Policy::Coop,
            sched_seed: 1,
            entropy_seed: 1,
            workers: 2,
            tick_budget: 200_000_000,
            switch_budget: 3_000_000,
            spurious: 0.0,
            leaps: vec![],
            wall_jumps: vec![],
            stdout_faults: Default::default(),
            disk_faults: Default::default(),
            scratch: String::new(),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub ticks: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub threads: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub spurious: u64,
    pub timeouts: u64,
    pub yields: u64,
    pub leaps: u64,
    pub wall_jumps: u64,
    pub sleeps: u64,
    pub clock_reads: u64,
    pub entropy_reads: u64,
    pub sim_ns: u64,
    pub sched_hash: u64,
}

#[repr(C)]
pub enum Fatal {
    Deadlock = 1,
    TickBudget = 2,
    SwitchBudget = 3,
    TooManyThreads = 4,
}

pub struct Sim {
    pub cfg: Config,
    pub rng: Rng,
    pub entropy: Rng,
    pub th: [Th; MAXT],
    pub nth: usize,
    pub cur: usize,
    pub now: u64,
    pub wall_off: i64,
    pub sync_ord: u64,
    pub slice_end: u64,
    pub low_prio: i64,
    pub change_points: Vec<u64>,
    pub ex_p: usize,
    pub ex_s: usize,
    pub leap_i: usize,
    pub wall_i: usize,
    pub rec: Decisions,
    pub st: Stats,
    pub hash: Hash,
    pub start_ticks: u64,
    pub disk: disk::Disk,
}

static mut S: Option<Box<Sim>> = None;
static mut ACTIVE: bool = false;
static mut TICK: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut FATAL_HOOK: Option<fn(Fatal)> = None;
static mut KEY: libc::pthread_key_t = 0;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub const T0: u64 = 1_000_000_000_000; // initial monotonic time, ns
pub const WALL0: i64 = 1_700_000_000_000_000_000;

#[inline]
pub(crate) fn sim() -> &'static mut Sim {
    unsafe { S.as_mut().unwrap() }
}
#[inline]
pub fn active() -> bool {
    unsafe { ACTIVE && ME.with(|m| m.get()) != usize::MAX }
}
pub fn me() -> usize {
    ME.with(|m| m.get())
}
pub fn ticks() -> u64 {
    unsafe { TICK }
}
pub fn set_fatal_hook(f: fn(Fatal)) {
    unsafe { FATAL_HOOK = Some(f) }
}

fn fatal(k: Fatal) -> ! {
    unsafe {
        ACTIVE = false;
        NEXT = u64::MAX;
        if let Some(f) = FATAL_HOOK {
            f(k)
        }
        sys::raw_exit(97)
    }
}

// ---------------------------------------------------------------------------------------------
// Coverage callbacks = preemption points

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc() {
    TICK += 1;
    if TICK >= NEXT {
        tick_slow();
    }
}

// Atomic operations of the instrumented crates (ThreadSanitizer's ABI): a preemption point before each, then the operation.

#[inline(always)]
unsafe fn point() {
    TICK += 1;
    if TICK >= NEXT {
        tick_slow();
    }
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    point();
    std::sync::atomic::fence(Ordering::SeqCst);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident $store:ident $swap:ident $cas:ident $($f:ident = $m:ident),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $t, _: i32) -> $t {
            point();
            <$a>::from_ptr(a as *mut $t).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: $t, _: i32) {
            point();
            <$a>::from_ptr(a).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $swap(a: *mut $t, v: $t, _: i32) -> $t {
            point();
            <$a>::from_ptr(a).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            point();
            match <$a>::from_ptr(a).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        $(#[no_mangle]
        pub unsafe extern "C" fn $f(a: *mut $t, v: $t, _: i32) -> $t {
            point();
            <$a>::from_ptr(a).$m(v, Ordering::SeqCst)
        })*
    };
}
use std::sync::atomic::{AtomicU16, AtomicU64, AtomicU8};
atomics!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_compare_exchange_val
    __tsan_atomic8_fetch_add = fetch_add, __tsan_atomic8_fetch_sub = fetch_sub, __tsan_atomic8_fetch_and = fetch_and,
    __tsan_atomic8_fetch_or = fetch_or, __tsan_atomic8_fetch_xor = fetch_xor, __tsan_atomic8_fetch_nand = fetch_nand);
atomics!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_compare_exchange_val
    __tsan_atomic16_fetch_add = fetch_add, __tsan_atomic16_fetch_sub = fetch_sub, __tsan_atomic16_fetch_and = fetch_and,
    __tsan_atomic16_fetch_or = fetch_or, __tsan_atomic16_fetch_xor = fetch_xor, __tsan_atomic16_fetch_nand = fetch_nand);
atomics!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_compare_exchange_val
    __tsan_atomic32_fetch_add = fetch_add, __tsan_atomic32_fetch_sub = fetch_sub, __tsan_atomic32_fetch_and = fetch_and,
    __tsan_atomic32_fetch_or = fetch_or, __tsan_atomic32_fetch_xor = fetch_xor, __tsan_atomic32_fetch_nand = fetch_nand);
atomics!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_compare_exchange_val
    __tsan_atomic64_fetch_add = fetch_add, __tsan_atomic64_fetch_sub = fetch_sub, __tsan_atomic64_fetch_and = fetch_and,
    __tsan_atomic64_fetch_or = fetch_or, __tsan_atomic64_fetch_xor = fetch_xor, __tsan_atomic64_fetch_nand = fetch_nand);

#[cold]
#[inline(never)]
fn tick_slow() {
    if !active() {
        return;
    }
    let s = sim();
    let t = unsafe { TICK };
    let rel = t - s.start_ticks;
    if rel >= s.cfg.tick_budget {
        fatal(Fatal::TickBudget);
    }
    while s.leap_i < s.cfg.leaps.len() && s.cfg.leaps[s.leap_i].0 <= rel {
        let d = s.cfg.leaps[s.leap_i].1;
        s.leap_i += 1;
        s.st.leaps += 1;
        advance_inner(d);
    }
    while s.wall_i < s.cfg.wall_jumps.len() && s.cfg.wall_jumps[s.wall_i].0 <= rel {
        s.wall_off += s.cfg.wall_jumps[s.wall_i].1;
        s.wall_i += 1;
        s.st.wall_jumps += 1;
    }
    // scheduling decision
    let n_run = runnable_count();
    let mut target = s.cur;
    match &s.cfg.policy {
        Policy::Explicit(d) => {
            while s.ex_p < d.preempt.len() && d.preempt[s.ex_p].0 <= rel {
                let tg = d.preempt[s.ex_p].1 as usize;
                s.ex_p += 1;
                if tg < s.nth && s.th[tg].st == St::Runnable {
                    target = tg;
                }
            }
        }
        Policy::Coop => {}
        Policy::Random { .. } | Policy::Stall { .. } => {
            if t >= s.slice_end {
                if n_run > 1 {
                    target = random_runnable(true);
                }
                new_slice();
            }
        }
        Policy::RoundRobin { .. } => {
            if t >= s.slice_end {
                if n_run > 1 {
                    target = rr_next(s.cur);
                }
                new_slice();
            }
        }
        Policy::Pct { .. } => {
            let mut demote = false;
            while let Some(&c) = s.change_points.last() {
                if c <= rel {
                    s.change_points.pop();
                    demote = true;
                } else {
                    break;
                }
            }
            if demote {
                s.low_prio -= 1;
                s.th[s.cur].prio = s.low_prio;
            }
            target = top_prio();
        }
    }
    set_next();
    if target != s.cur {
        s.st.preemptions += 1;
        s.rec.preempt.push((rel, target as u16));
        switch_to(target);
    }
}

fn set_next() {
    let s = sim();
    let t = unsafe { TICK };
    let base = s.start_ticks;
    let mut n = base + s.cfg.tick_budget;
    if s.leap_i < s.cfg.leaps.len() {
        n = n.min(base + s.cfg.leaps[s.leap_i].0);
    }
    if s.wall_i < s.cfg.wall_jumps.len() {
        n = n.min(base + s.cfg.wall_jumps[s.wall_i].0);
    }
    match &s.cfg.policy {
        Policy::Explicit(d) => {
            if s.ex_p < d.preempt.len() {
                n = n.min(base + d.preempt[s.ex_p].0);
            }
        }
        Policy::Coop => {}
        Policy::Random { .. } | Policy::Stall { .. } | Policy::RoundRobin { .. } => {
            n = n.min(s.slice_end)
        }
        Policy::Pct { .. } => {
            if let Some(&c) = s.change_points.last() {
                n = n.min(base + c);
            }
        }
    }
    unsafe { NEXT = n.max(t + 1) }
}

fn new_slice() {
    let s = sim();
    let t = unsafe { TICK };
    let len = match &s.cfg.policy {
        Policy::Random { mean } | Policy::Stall { mean, .. } => {
            // exponential-ish
            // slices grow in long runs, so that their number stays affordable
            let m = *mean as f64 * (1.0 + s.st.switches as f64 / 20_000.0).powi(2);
            let u = s.rng.f();
            (-m * (1.0 - u).ln()) as u64 + 1
        }
        Policy::RoundRobin { slice } => (*slice as f64 * (1.0 + s.st.switches as f64 / 20_000.0).powi(2)) as u64,
        _ => u64::MAX / 2,
    };
    s.slice_end = t.saturating_add(len);
}

fn runnable_count() -> usize {
    let s = sim();
    (0..s.nth).filter(|&i| s.th[i].st == St::Runnable).count()
}

/// The k-th thread in cyclic order after `cur` that is runnable (default successor).
fn rr_next(cur: usize) -> usize {
    let s = sim();
    for k in 1..=s.nth {
        let i = (cur + k) % s.nth;
        if s.th[i].st == St::Runnable {
            return i;
        }
    }
    usize::MAX
}

fn random_runnable(include_cur: bool) -> usize {
    let s = sim();
    let victim = match &s.cfg.policy {
        Policy::Stall { victim, until, .. } if unsafe { TICK } - s.start_ticks < *until => {
            *victim as usize
        }
        _ => usize::MAX,
    };
    let ok = |i: usize| s.th[i].st == St::Runnable && (include_cur || i != s.cur) && i != victim;
    let n = (0..s.nth).filter(|&i| ok(i)).count();
    if n == 0 {
        return if s.th[s.cur].st == St::Runnable && include_cur {
            s.cur
        } else {
            rr_next(s.cur)
        };
    }
    let k = s.rng.below(n as u64) as usize;
    (0..s.nth).filter(|&i| ok(i)).nth(k).unwrap()
}

fn top_prio() -> usize {
    let s = sim();
    let mut best = usize::MAX;
    for i in 0..s.nth {
        if s.th[i].st == St::Runnable && (best == usize::MAX || s.th[i].prio > s.th[best].prio) {
            best = i;
        }
    }
    best
}

fn switch_to(t: usize) {
    let s = sim();
    let from = s.cur;
    if t == from {
        return;
    }
    s.st.switches += 1;
    if s.st.switches > s.cfg.switch_budget {
        fatal(Fatal::SwitchBudget);
    }
    s.hash.u(((from as u64) << 32) | t as u64);
    s.cur = t;
    let my = from;
    s.th[t].turn.store(1, Ordering::Release);
    sys::raw_futex_wake(&s.th[t].turn);
    wait_turn(my);
}

fn wait_turn(i: usize) {
    let w = unsafe { &*(&sim().th[i].turn as *const AtomicU32) };
    loop {
        if w.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        sys::raw_futex_wait(w, 0);
    }
}

/// A voluntary decision point. `stay` = default is to keep running, otherwise the default is the
/// round robin successor. The current thread must be runnable.
pub(crate) fn sync_point(stay: bool) {
    if !active() {
        return;
    }
    let s = sim();
    let ord = s.sync_ord;
    s.sync_ord += 1;
    let n = runnable_count();
    if n <= 1 {
        return;
    }
    let default = if stay { s.cur } else { rr_next(s.cur) };
    let target = match &s.cfg.policy {
        Policy::Explicit(_) => explicit_choice(ord, default),
        Policy::Coop => default,
        Policy::Random { .. } | Policy::Stall { .. } => {
            if stay {
                if s.rng.chance(0.35) {
                    random_runnable(true)
                } else {
                    s.cur
                }
            } else {
                random_runnable(false)
            }
        }
        Policy::RoundRobin { .. } => default,
        Policy::Pct { .. } => {
            if !stay {
                s.low_prio -= 1;
                s.th[s.cur].prio = s.low_prio;
            }
            top_prio()
        }
    };
    if target != default {
        s.rec.sync.push((ord, target as u16));
    }
    if target != s.cur {
        if !matches!(s.cfg.policy, Policy::Explicit(_) | Policy::Pct { .. } | Policy::Coop) {
            new_slice();
            set_next();
        }
        switch_to(target);
    }
}

fn explicit_choice(ord: u64, default: usize) -> usize {
    let s = sim();
    let mut r = default;
    if let Policy::Explicit(d) = &s.cfg.policy {
        while s.ex_s < d.sync.len() && d.sync[s.ex_s].0 <= ord {
            let (o, tg) = d.sync[s.ex_s];
            s.ex_s += 1;
            if o == ord && (tg as usize) < s.nth && s.th[tg as usize].st == St::Runnable {
                r = tg as usize;
            }
        }
    }
    r
}

/// Gives up the baton because the current thread is not runnable any more.
/// Returns once it has been made runnable and scheduled again.
pub(crate) fn block() {
    let s = sim();
    loop {
        if runnable_count() > 0 {
            break;
        }
        // discrete-event time: jump to the next deadline
        let mut dl = u64::MAX;
        for i in 0..s.nth {
            if matches!(s.th[i].st, St::Futex | St::Sleep) {
                dl = dl.min(deadline_mono(i));
            }
        }
        if dl == u64::MAX {
            fatal(Fatal::Deadlock);
        }
        let d = dl.saturating_sub(s.now);
        advance_inner(d);
    }
    let ord = s.sync_ord;
    s.sync_ord += 1;
    let default = rr_next(s.cur);
    let target = match &s.cfg.policy {
        Policy::Explicit(_) => explicit_choice(ord, default),
        Policy::Coop | Policy::RoundRobin { .. } => default,
        Policy::Random { .. } | Policy::Stall { .. } => random_runnable(true),
        Policy::Pct { .. } => top_prio(),
    };
    if target != default {
        s.rec.sync.push((ord, target as u16));
    }
    if !matches!(s.cfg.policy, Policy::Explicit(_) | Policy::Pct { .. } | Policy::Coop) {
        new_slice();
        set_next();
    }
    switch_to(target);
}

fn deadline_mono(i: usize) -> u64 {
    let s = sim();
    let d = s.th[i].deadline;
    if d == u64::MAX {
        return d;
    }
    if s.th[i].realtime {
        let m = d as i64 - (WALL0 + s.wall_off) + T0 as i64;
        m.max(0) as u64
    } else {
        d
    }
}

pub(crate) fn advance_inner(ns: u64) {
    let s = sim();
    s.now = s.now.saturating_add(ns);
    for i in 0..s.nth {
        if matches!(s.th[i].st, St::Futex | St::Sleep) && deadline_mono(i) <= s.now {
            if s.th[i].st == St::Futex {
                s.th[i].timed_out = true;
            }
            s.th[i].st = St::Runnable;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Futex

pub(crate) fn futex_wait(addr: *const AtomicU32, val: u32, deadline: u64, realtime: bool) -> i32 {
    let s = sim();
    sync_point(true);
    if unsafe { (*addr).load(Ordering::SeqCst) } != val {
        return -libc::EAGAIN;
    }
    s.st.futex_waits += 1;
    if s.cfg.spurious > 0.0 && s.rng_chance(s.cfg.spurious) {
        s.st.spurious += 1;
        sync_point(false);
        return 0;
    }
    let c = s.cur;
    s.th[c].addr = addr as usize;
    s.th[c].deadline = deadline;
    s.th[c].realtime = realtime;
    s.th[c].timed_out = false;
    s.th[c].st = St::Futex;
    block();
    let s = sim();
    if s.th[c].timed_out {
        s.st.timeouts += 1;
        -libc::ETIMEDOUT
    } else {
        0
    }
}

impl Sim {
    fn rng_chance(&mut self, p: f64) -> bool {
        // Spurious wake-ups are keyed by the wait's ordinal so that shrinking the schedule does not
        // shift them.
        let h = rng::mix(self.cfg.sched_seed ^ rng::mix(self.st.futex_waits));
        ((h >> 11) as f64 / (1u64 << 53) as f64) < p
    }
}

pub(crate) fn futex_wake(addr: *const AtomicU32, n: u32) -> i32 {
    let s = sim();
    s.st.futex_wakes += 1;
    let mut k = 0;
    for i in 0..s.nth {
        if k >= n {
            break;
        }
        if s.th[i].st == St::Futex && s.th[i].addr == addr as usize {
            s.th[i].st = St::Runnable;
            k += 1;
        }
    }
    sync_point(true);
    k as i32
}

// ---------------------------------------------------------------------------------------------
// Threads

pub(crate) struct StartArg {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    tid: usize,
}

pub(crate) fn new_thread(
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> *mut StartArg {
    let s = sim();
    if s.nth >= MAXT {
        fatal(Fatal::TooManyThreads);
    }
    let tid = s.nth;
    s.nth += 1;
    s.st.threads += 1;
    s.th[tid].st = St::Runnable;
    s.th[tid].turn.store(0, Ordering::Release);
    s.th[tid].prio = (s.rng.next() >> 2) as i64;
    Box::into_raw(Box::new(StartArg { f, arg, tid }))
}

pub(crate) fn cancel_thread(a: *mut StartArg) {
    let a = unsafe { Box::from_raw(a) };
    sim().th[a.tid].st = St::Exited;
}

pub(crate) fn set_pthread(tid: usize, p: usize) {
    sim().th[tid].pthread = p;
}

pub(crate) extern "C" fn trampoline(a: *mut libc::c_void) -> *mut libc::c_void {
    let a = unsafe { Box::from_raw(a as *mut StartArg) };
    let (f, arg, tid) = (a.f, a.arg, a.tid);
    drop(a);
    ME.with(|m| m.set(tid));
    wait_turn(tid);
    unsafe {
        libc::pthread_setspecific(KEY, 1 as *const libc::c_void);
    }
    f(arg)
}

extern "C" fn key_dtor(v: *mut libc::c_void) {
    // Re-arm twice so that this runs after any other key destructors.
    let k = v as usize;
    if k < 3 {
        unsafe {
            libc::pthread_setspecific(KEY, (k + 1) as *const libc::c_void);
        }
        return;
    }
    if !active() {
        return;
    }
    let s = sim();
    let c = s.cur;
    s.th[c].st = St::Exited;
    for i in 0..s.nth {
        if s.th[i].st == St::Join && s.th[i].join_target == c {
            s.th[i].st = St::Runnable;
        }
    }
    ME.with(|m| m.set(usize::MAX));
    exit_handoff();
}

fn exit_handoff() {
    // like block(), but does not come back
    let s = sim();
    loop {
        if runnable_count() > 0 {
            break;
        }
        let mut dl = u64::MAX;
        for i in 0..s.nth {
            if matches!(s.th[i].st, St::Futex | St::Sleep) {
                dl = dl.min(deadline_mono(i));
            }
        }
        if dl == u64::MAX {
            fatal(Fatal::Deadlock);
        }
        let d = dl.saturating_sub(s.now);
        advance_inner(d);
    }
    let ord = s.sync_ord;
    s.sync_ord += 1;
    let default = rr_next(s.cur);
    let target = match &s.cfg.policy {
        Policy::Explicit(_) => explicit_choice(ord, default),
        Policy::Coop | Policy::RoundRobin { .. } => default,
        Policy::Random { .. } | Policy::Stall { .. } => random_runnable(true),
        Policy::Pct { .. } => top_prio(),
    };
    if target != default {
        s.rec.sync.push((ord, target as u16));
    }
    s.st.switches += 1;
    s.hash.u(((s.cur as u64) << 32) | target as u64);
    s.cur = target;
    s.th[target].turn.store(1, Ordering::Release);
    sys::raw_futex_wake(&s.th[target].turn);
}

pub(crate) fn join_wait(p: usize) {
    let s = sim();
    let mut t = usize::MAX;
    for i in 0..s.nth {
        if s.th[i].pthread == p && s.th[i].st != St::Free {
            t = i;
        }
    }
    if t == usize::MAX {
        return;
    }
    while s.th[t].st != St::Exited {
        let c = s.cur;
        s.th[c].st = St::Join;
        s.th[c].join_target = t;
        block();
    }
    s.th[t].pthread = 0;
}

// ---------------------------------------------------------------------------------------------
// Public API

pub fn start(cfg: Config) {
    unsafe {
        const T: Th = Th {
            turn: AtomicU32::new(0),
            st: St::Free,
            addr: 0,
            deadline: u64::MAX,
            realtime: false,
            timed_out: false,
            prio: 0,
            pthread: 0,
            join_target: 0,
        };
        let mut rng = Rng::new(cfg.sched_seed);
        let mut change_points = vec![];
        if let Policy::Pct { depth, span } = &cfg.policy {
            for _ in 0..*depth {
                change_points.push(rng.below(*span));
            }
            change_points.sort();
            change_points.reverse();
        }
        let mut cfg = cfg;
        cfg.leaps.sort();
        cfg.wall_jumps.sort();
        let disk = disk::Disk::new(&cfg);
        S = Some(Box::new(Sim {
            rng,
            entropy: Rng::new(cfg.entropy_seed ^ 0xE17409),
            th: [T; MAXT],
            nth: 1,
            cur: 0,
            now: T0,
            wall_off: 0,
            sync_ord: 0,
            slice_end: 0,
            low_prio: 0,
            change_points,
            ex_p: 0,
            ex_s: 0,
            leap_i: 0,
            wall_i: 0,
            rec: Decisions::default(),
            st: Stats::default(),
            hash: Hash::new(),
            start_ticks: TICK,
            disk,
            cfg,
        }));
        let s = sim();
        s.th[0].st = St::Runnable;
        s.th[0].prio = (s.rng.next() >> 2) as i64;
        s.th[0].pthread = libc::pthread_self() as usize;
        if KEY == 0 {
            libc::pthread_key_create(
                &raw mut KEY,
                Some(std::mem::transmute::<
                    extern "C" fn(*mut libc::c_void),
                    unsafe extern "C" fn(*mut libc::c_void),
                >(key_dtor)),
            );
        }
        ME.with(|m| m.set(0));
        new_slice();
        ACTIVE = true;
        set_next();
    }
}

/// Ends the simulation. Called by thread 0. Other threads stay parked for good.
pub fn stop() -> (Stats, Decisions) {
    unsafe {
        ACTIVE = false;
        NEXT = u64::MAX;
        let s = sim();
        s.st.ticks = TICK - s.start_ticks;
        s.st.sim_ns = s.now - T0;
        s.st.sched_hash = s.hash.0;
        (s.st.clone(), s.rec.clone())
    }
}

pub fn snapshot_stats() -> Stats {
    let s = sim();
    s.st.ticks = unsafe { TICK } - s.start_ticks;
    s.st.sim_ns = s.now - T0;
    s.st.sched_hash = s.hash.0;
    s.st.clone()
}

pub fn decisions() -> &'static Decisions {
    &sim().rec
}

/// Simulated monotonic time in ns (0 when no simulation is active).
pub fn now() -> u64 {
    if active() {
        sim().now
    } else {
        0
    }
}

/// The current thread is busy for `ns` of simulated time; other threads may run meanwhile.
pub fn busy(ns: u64) {
    if !active() {
        return;
    }
    let s = sim();
    s.st.sleeps += 1;
    let c = s.cur;
    s.th[c].st = St::Sleep;
    s.th[c].realtime = false;
    s.th[c].deadline = s.now.saturating_add(ns);
    block();
}

/// Advances the simulated clock without giving up the baton.
pub fn leap(ns: u64) {
    if active() {
        sim().st.leaps += 1;
        advance_inner(ns)
    }
}

pub fn wall_jump(ns: i64) {
    if active() {
        sim().st.wall_jumps += 1;
        sim().wall_off += ns;
    }
}

pub fn yield_point() {
    sync_point(true)
}

pub fn captured_stdout() -> &'static [u8] {
    &sim().disk.captured
}
pub fn clear_stdout() {
    sim().disk.captured.clear()
}
pub fn disk_fired() -> &'static [(&'static str, u64)] {
    &sim().disk.fired
}
/// Runs `f` with disk and stdout faults switched off.
pub fn set_disk_faults(on: bool) {
    sim().disk.enabled = on
}
pub fn disk_state() -> &'static mut disk::Disk {
    &mut sim().disk
}
/// Changes the entropy stream (used to show independence from system entropy).
pub fn reseed_entropy(seed: u64) {
    sim().entropy = Rng::new(seed ^ 0xE17409)
}
