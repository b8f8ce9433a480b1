//! Interposition at the libc boundary.
//!
//! The simulation binary defines the libc functions through which Rust's std
//! and crossbeam create threads, wait, wake up, sleep, read the clock and do
//! their console I/O. While a simulation is active, they're decided by the
//! scheduler and the simulated terminal. Otherwise they do the real thing.

use {
    crate::{
        sched,
        term,
    },
    libc::{
        c_int,
        c_long,
        c_void,
        size_t,
        ssize_t,
        timespec,
    },
    std::{
        arch::asm,
        sync::atomic::{
            AtomicU32,
            AtomicUsize,
            Ordering,
        },
    },
};

pub unsafe fn raw_syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    let r: c_long;
    asm!("syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        out("rcx") _, out("r11") _, options(nostack));
    r
}

pub fn set_errno(e: i32) {
    unsafe {
        *libc::__errno_location() = e;
    }
}

fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn real_futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        raw_syscall(
            libc::SYS_futex,
            a as *const _ as c_long,
            (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as c_long,
            v as c_long,
            0,
            0,
            0,
        );
    }
}
pub fn real_futex_wake(a: &AtomicU32) {
    unsafe {
        raw_syscall(
            libc::SYS_futex,
            a as *const _ as c_long,
            (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as c_long,
            1,
            0,
            0,
            0,
        );
    }
}

/// real time, for the driver only
pub fn wall_ns() -> u64 {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        raw_syscall(
            libc::SYS_clock_gettime,
            libc::CLOCK_MONOTONIC as c_long,
            &mut ts as *mut _ as c_long,
            0,
            0,
            0,
            0,
        );
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn ts_ns(ts: *const timespec) -> u64 {
    unsafe { ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64) }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if sched::active() {
        if n == libc::SYS_futex {
            let op = (b as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let deadline = if d == 0 {
                        None
                    } else {
                        let t = ts_ns(d as *const timespec);
                        Some(if op == libc::FUTEX_WAIT {
                            sched::now().saturating_add(t)
                        } else {
                            t
                        })
                    };
                    return match sched::futex_wait(a as usize, c as u32, deadline) {
                        Ok(()) => 0,
                        Err(e) => {
                            set_errno(e);
                            -1
                        }
                    };
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    return sched::futex_wake(a as usize, c as u32) as c_long;
                }
                _ => {
                    crate::driver::harness_error("unsupported futex operation");
                }
            }
        }
        if n == libc::SYS_getrandom {
            let buf = std::slice::from_raw_parts_mut(a as *mut u8, b as usize);
            for (i, x) in buf.iter_mut().enumerate() {
                *x = (i as u8).wrapping_mul(37).wrapping_add(11);
            }
            return b;
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: libc::c_uint) -> ssize_t {
    let _ = flags;
    // always deterministic
    let buf = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for (i, x) in buf.iter_mut().enumerate() {
        *x = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    len as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if sched::active() {
        sched::point();
        let now = sched::now();
        (*ts).tv_sec = (now / 1_000_000_000) as _;
        (*ts).tv_nsec = (now % 1_000_000_000) as _;
        return 0;
    }
    ret(raw_syscall(
        libc::SYS_clock_gettime,
        clk as c_long,
        ts as c_long,
        0,
        0,
        0,
        0,
    )) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if sched::active() {
        sched::sleep_ns(ts_ns(req));
        return 0;
    }
    ret(raw_syscall(
        libc::SYS_nanosleep,
        req as c_long,
        rem as c_long,
        0,
        0,
        0,
        0,
    )) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: c_int,
    req: *const timespec,
    rem: *mut timespec,
) -> c_int {
    if sched::active() {
        let t = ts_ns(req);
        if flags & libc::TIMER_ABSTIME != 0 {
            sched::sleep_ns(t.saturating_sub(sched::now()));
        } else {
            sched::sleep_ns(t);
        }
        return 0;
    }
    -(raw_syscall(
        libc::SYS_clock_nanosleep,
        clk as c_long,
        flags as c_long,
        req as c_long,
        rem as c_long,
        0,
        0,
    )) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::active() {
        sched::yield_now();
        return 0;
    }
    ret(raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

// ---- threads

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type PCreate = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    Start,
    *mut c_void,
) -> c_int;
type PJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;

static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);
static mut EXIT_KEY: libc::pthread_key_t = 0;

pub fn init() {
    unsafe {
        let p = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
        let j = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr());
        assert!(!p.is_null() && !j.is_null());
        REAL_CREATE.store(p as usize, Ordering::SeqCst);
        REAL_JOIN.store(j as usize, Ordering::SeqCst);
        let mut key = 0;
        libc::pthread_key_create(&mut key, Some(on_thread_exit));
        EXIT_KEY = key;
    }
}

extern "C" fn on_thread_exit(v: *mut c_void) {
    let tid = v as usize as u32 - 1;
    sched::thread_exit(tid);
}

struct Tramp {
    start: Start,
    arg: *mut c_void,
    tid: u32,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    let Tramp { start, arg, tid } = *t;
    sched::thread_enter(tid);
    unsafe {
        libc::pthread_setspecific(EXIT_KEY, (tid as usize + 1) as *const c_void);
    }
    start(arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: Start,
    arg: *mut c_void,
) -> c_int {
    let p = REAL_CREATE.load(Ordering::SeqCst);
    let real: PCreate = if p == 0 {
        std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()))
    } else {
        std::mem::transmute(p)
    };
    if !sched::active() {
        return real(out, attr, start, arg);
    }
    let tid = sched::new_thread();
    let tramp = Box::into_raw(Box::new(Tramp { start, arg, tid }));
    let r = real(out, attr, trampoline_entry(), tramp as *mut c_void);
    if r != 0 {
        crate::driver::harness_error("pthread_create failed");
    }
    sched::sim().threads[tid as usize].pthread = *out as usize;
    sched::point();
    0
}
fn trampoline_entry() -> Start {
    trampoline
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    if sched::active() {
        if let Some(tid) = sched::find_thread(t as usize) {
            sched::join_thread(tid);
        }
    }
    let real: PJoin = std::mem::transmute(REAL_JOIN.load(Ordering::SeqCst));
    real(t, ret)
}

// ---- console I/O

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    if sched::active() && fd == 0 {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        return match term::stdin_read(b) {
            Ok(n) => n as ssize_t,
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    ret(raw_syscall(
        libc::SYS_read,
        fd as c_long,
        buf as c_long,
        len as c_long,
        0,
        0,
        0,
    )) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    if sched::active() && fd == 1 {
        let b = std::slice::from_raw_parts(buf as *const u8, len);
        return match term::stdout_write(b) {
            Ok(n) => n as ssize_t,
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    ret(raw_syscall(
        libc::SYS_write,
        fd as c_long,
        buf as c_long,
        len as c_long,
        0,
        0,
        0,
    )) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if sched::active() && fd == 1 {
        let v = std::slice::from_raw_parts(iov, n as usize);
        let mut all = Vec::new();
        for io in v {
            all.extend_from_slice(std::slice::from_raw_parts(
                io.iov_base as *const u8,
                io.iov_len,
            ));
        }
        return write(fd, all.as_ptr() as *const c_void, all.len());
    }
    ret(raw_syscall(
        libc::SYS_writev,
        fd as c_long,
        iov as c_long,
        n as c_long,
        0,
        0,
        0,
    )) as ssize_t
}

// ---- instrumented edges of the crate under test

static mut GUARD_COUNT: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        GUARD_COUNT += 1;
        *p = GUARD_COUNT;
        p = p.add(1);
    }
}
pub fn guard_count() -> u32 {
    unsafe { GUARD_COUNT }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g;
    crate::driver::cov_hit(id);
    sched::edge(id);
}
