//! Symbols the simulator defines in place of libc's / the coverage runtime's.
use crate::sched::*;
use crate::sys::*;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            NGUARDS += 1;
            *p = NGUARDS as u32;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if IN_SUBJ {
        step_guard(*g as usize);
    }
}

macro_rules! ld {
    ($($n:ident),*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(_a: usize) { if IN_SUBJ { step() } })* }
}
macro_rules! st {
    ($($n:ident),*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(a: usize) { if IN_SUBJ { note_store(a); step() } })* }
}
ld!(__sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16);
st!(__sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16);

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

unsafe fn ts_ns(ts: usize) -> u64 {
    if ts == 0 {
        return u64::MAX;
    }
    let t = ts as *const [i64; 2];
    ((*t)[0] as u64).wrapping_mul(1_000_000_000).wrapping_add((*t)[1] as u64)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == SYS_FUTEX && CUR >= 0 {
        let op = b & 0x7f;
        // FUTEX_WAIT = 0 (relative), WAIT_BITSET = 9 (absolute), WAKE = 1, WAKE_BITSET = 10
        let r = match op {
            0 => futex_wait(a, c as u32, ts_ns(d), false),
            9 => futex_wait(a, c as u32, ts_ns(d), true),
            1 | 10 => futex_wake(a, (c as i32).max(0) as u32),
            _ => None,
        };
        if let Some(r) = r {
            return ret(r);
        }
    }
    if n == SYS_GETRANDOM && sim_random(a as *mut u8, b) {
        return b as isize;
    }
    ret(syscall6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if sim_random(buf, len) {
        return len as isize;
    }
    ret(syscall6(SYS_GETRANDOM, buf as usize, len, flags as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if let Some(t) = sim_clock() {
        (*ts)[0] = (t / 1_000_000_000) as i64;
        (*ts)[1] = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(syscall6(SYS_CLOCK_GETTIME, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sim_sleep(ts_ns(req as usize)) {
        return 0;
    }
    ret(syscall6(SYS_NANOSLEEP, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    let ns = ts_ns(req as usize);
    let rel = if flags & 1 != 0 { ns.saturating_sub(SIM.clock) } else { ns };
    if sim_sleep(rel) {
        return 0;
    }
    (-syscall6(SYS_CLOCK_NANOSLEEP, id as usize, flags as usize, req as usize, rem as usize, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sim_yield() {
        return 0;
    }
    ret(syscall6(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0)) as i32
}

extern "C" {
    fn dlsym(h: usize, name: *const u8) -> usize;
}

unsafe fn real(name: &[u8]) -> usize {
    dlsym(usize::MAX, name.as_ptr())
}

type StartFn = extern "C" fn(usize) -> usize;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(tid: *mut usize, attr: usize, f: StartFn, arg: usize) -> i32 {
    let go: unsafe extern "C" fn(*mut usize, usize, StartFn, usize) -> i32 = std::mem::transmute(real(b"pthread_create\0"));
    match sim_spawn(f, arg, |f, arg| (go(tid, attr, f, arg), *tid)) {
        Some(r) => r,
        None => go(tid, attr, f, arg),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(tid: usize, out: usize) -> i32 {
    sim_join(tid);
    let go: unsafe extern "C" fn(usize, usize) -> i32 = std::mem::transmute(real(b"pthread_join\0"));
    go(tid, out)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_detach(tid: usize) -> i32 {
    sim_detach(tid);
    let go: unsafe extern "C" fn(usize) -> i32 = std::mem::transmute(real(b"pthread_detach\0"));
    go(tid)
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    match sim_var(name) {
        Some(v) => v,
        None => {
            let go: unsafe extern "C" fn(*const u8) -> *const u8 = std::mem::transmute(real(b"getenv\0"));
            go(name)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    match sim_machine() {
        Some((_, p)) => p as i32,
        None => syscall6(SYS_GETPID, 0, 0, 0, 0, 0, 0) as i32,
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, mask: *mut u8) -> i32 {
    match sim_machine() {
        Some((n, _)) => {
            for i in 0..len {
                let left = (n as usize).saturating_sub(8 * i).min(8);
                *mask.add(i) = ((1u16 << left) - 1) as u8;
            }
            0
        }
        None => {
            let r = syscall6(SYS_GETAFFINITY, pid as usize, len, mask as usize, 0, 0, 0);
            if r > 0 {
                for i in r as usize..len {
                    *mask.add(i) = 0;
                }
            }
            ret(r.min(0)) as i32
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn sysconf(what: i32) -> i64 {
    // _SC_NPROCESSORS_CONF, _SC_NPROCESSORS_ONLN
    if matches!(what, 83 | 84) {
        if let Some((n, _)) = sim_machine() {
            return n as i64;
        }
    }
    let f = real(b"sysconf\0");
    std::mem::transmute::<usize, unsafe extern "C" fn(i32) -> i64>(f)(what)
}
