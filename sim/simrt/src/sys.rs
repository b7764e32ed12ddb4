//! Interposed libc entry points and raw system calls.
use crate::disk::Op;
use crate::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, size_t, ssize_t, timespec};
use std::arch::asm;

#[inline]
pub unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
         in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
fn ret(r: c_long) -> c_long {
    if r < 0 && r >= -4095 {
        unsafe { *libc::__errno_location() = (-r) as c_int };
        -1
    } else {
        r
    }
}
pub fn raw_futex_wake(w: &AtomicU32) {
    unsafe {
        raw6(libc::SYS_futex, w as *const _ as c_long, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as c_long, 1, 0, 0, 0);
    }
}
pub fn raw_futex_wait(w: &AtomicU32, v: u32) {
    unsafe {
        raw6(libc::SYS_futex, w as *const _ as c_long, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as c_long, v as c_long, 0, 0, 0);
    }
}
pub fn raw_exit(code: i32) -> ! {
    unsafe {
        raw6(libc::SYS_exit_group, code as c_long, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn raw_write(fd: i32, b: &[u8]) -> i64 {
    unsafe { raw6(libc::SYS_write, fd as c_long, b.as_ptr() as c_long, b.len() as c_long, 0, 0, 0) }
}
/// Real monotonic time (orchestrator and watchdog only).
pub fn real_ns() -> u64 {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        raw6(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as c_long, 0, 0, 0, 0);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

// ---- futex & friends through syscall(2) -----------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if active() {
        if n == libc::SYS_futex {
            let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            let rt = b as c_int & libc::FUTEX_CLOCK_REALTIME != 0;
            let addr = a as *const AtomicU32;
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let ts = d as *const timespec;
                    let mut dl = u64::MAX;
                    if !ts.is_null() {
                        let v = ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64);
                        dl = if op == libc::FUTEX_WAIT { sim().now.saturating_add(v) } else { v };
                    }
                    return ret(futex_wait(addr, c as u32, dl, rt) as c_long);
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    return futex_wake(addr, c as u32) as c_long;
                }
                _ => {}
            }
        } else if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b as size_t, c as c_uint) as c_long;
        } else if n == libc::SYS_clock_gettime {
            return clock_gettime(a as libc::clockid_t, b as *mut timespec) as c_long;
        } else if n == libc::SYS_sched_yield {
            return sched_yield() as c_long;
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}

// ---- threads ---------------------------------------------------------------------------------

type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;

unsafe fn next_sym(name: &[u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real: CreateFn = std::mem::transmute(next_sym(b"pthread_create\0"));
    if !active() {
        return real(t, attr, f, arg);
    }
    let a = new_thread(f, arg);
    let tid = sim().nth - 1;
    let r = real(t, attr, trampoline, a as *mut c_void);
    if r != 0 {
        cancel_thread(a);
        return r;
    }
    set_pthread(tid, *t as usize);
    sync_point(true);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if active() {
        join_wait(t as usize);
    }
    let real: JoinFn = std::mem::transmute(next_sym(b"pthread_join\0"));
    real(t, r)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        sim().st.yields += 1;
        sync_point(false);
        return 0;
    }
    ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if active() {
        let b = set as *mut u8;
        for i in 0..n {
            *b.add(i) = 0;
        }
        for i in 0..sim().cfg.workers.max(1) {
            *b.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw6(libc::SYS_sched_getaffinity, pid as c_long, n as c_long, set as c_long, 0, 0, 0);
    if r < 0 {
        return ret(r) as c_int;
    }
    let b = set as *mut u8;
    for i in (r as usize)..n {
        *b.add(i) = 0;
    }
    0
}

// ---- clock -----------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if active() {
        let s = sim();
        s.st.clock_reads += 1;
        let v: i64 = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => {
                WALL0 + s.wall_off + (s.now as i64 - T0 as i64)
            }
            _ => s.now as i64,
        };
        (*ts).tv_sec = v.div_euclid(1_000_000_000);
        (*ts).tv_nsec = v.rem_euclid(1_000_000_000);
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

unsafe fn sleep_ns(ns: u64) {
    busy(ns)
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as c_long, rem as c_long, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        let v = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let d = if flags & libc::TIMER_ABSTIME != 0 {
            let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
            clock_gettime(clk, &mut ts);
            v.saturating_sub(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
        } else {
            v
        };
        sleep_ns(d);
        return 0;
    }
    let r = raw6(libc::SYS_clock_nanosleep, clk as c_long, flags as c_long, req as c_long, rem as c_long, 0, 0);
    (-r) as c_int
}

// ---- entropy ---------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if active() {
        let s = sim();
        s.st.entropy_reads += 1;
        let b = buf as *mut u8;
        for i in 0..n {
            *b.add(i) = s.entropy.next() as u8;
        }
        return n as ssize_t;
    }
    ret(raw6(libc::SYS_getrandom, buf as c_long, n as c_long, flags as c_long, 0, 0, 0)) as ssize_t
}

// ---- files -----------------------------------------------------------------------------------

unsafe fn path_bytes<'a>(p: *const c_char) -> &'a [u8] {
    std::ffi::CStr::from_ptr(p).to_bytes()
}
fn fail(e: i32) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}

unsafe fn do_openat(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let tr = active() && sim().disk.in_scratch(path_bytes(p));
    if tr {
        sync_point(true);
        if let Some(e) = sim().disk.decide(Op::Open) {
            return fail(e);
        }
    }
    let fd = ret(raw6(libc::SYS_openat, dir as c_long, p as c_long, (flags | libc::O_LARGEFILE) as c_long, mode as c_long, 0, 0)) as c_int;
    if tr && fd >= 0 {
        sim().disk.track(fd, true);
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_openat(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_openat(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_openat(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_openat(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if active() && sim().disk.in_scratch(path_bytes(p)) {
        sync_point(true);
        if let Some(e) = sim().disk.decide(Op::Mkdir) {
            return fail(e);
        }
    }
    ret(raw6(libc::SYS_mkdir, p as c_long, mode as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() && sim().disk.is_tracked(fd) {
        let e = sim().disk.decide(Op::Close);
        sim().disk.track(fd, false);
        raw6(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0);
        return match e {
            Some(e) => fail(e),
            None => 0,
        };
    }
    ret(raw6(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if active() && sim().disk.is_tracked(fd) {
        if let Some(e) = sim().disk.decide(Op::Sync) {
            return fail(e);
        }
    }
    ret(raw6(libc::SYS_fsync, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if active() && sim().disk.is_tracked(fd) {
        if let Some(e) = sim().disk.decide(Op::Sync) {
            return fail(e);
        }
    }
    ret(raw6(libc::SYS_fdatasync, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if active() {
        if fd == 1 {
            sync_point(true);
            let r = sim().disk.stdout_write(std::slice::from_raw_parts(buf as *const u8, n));
            return ret(r) as ssize_t;
        }
        if sim().disk.is_tracked(fd) {
            sync_point(true);
            return match sim().disk.decide_write(n as u64) {
                Err(e) => fail(e) as ssize_t,
                Ok(k) => ret(raw6(libc::SYS_write, fd as c_long, buf as c_long, k as c_long, 0, 0, 0)) as ssize_t,
            };
        }
    }
    ret(raw6(libc::SYS_write, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if active() && (fd == 1 || sim().disk.is_tracked(fd)) {
        // served as a write of the first non-empty buffer (a legal short write)
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(raw6(libc::SYS_writev, fd as c_long, iov as c_long, n as c_long, 0, 0, 0)) as ssize_t
}

/// Reads a file behind the simulator's back.
pub fn raw_read_file(path: &str) -> Option<Vec<u8>> {
    let p = std::ffi::CString::new(path).unwrap();
    unsafe {
        let fd = raw6(libc::SYS_openat, libc::AT_FDCWD as c_long, p.as_ptr() as c_long, libc::O_RDONLY as c_long, 0, 0, 0);
        if fd < 0 {
            return None;
        }
        let mut v = vec![];
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let r = raw6(libc::SYS_read, fd, buf.as_mut_ptr() as c_long, buf.len() as c_long, 0, 0, 0);
            if r <= 0 {
                break;
            }
            v.extend_from_slice(&buf[..r as usize]);
        }
        raw6(libc::SYS_close, fd, 0, 0, 0, 0, 0);
        Some(v)
    }
}
