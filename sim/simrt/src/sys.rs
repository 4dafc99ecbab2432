//! Raw system calls: the simulator itself must not go through the libc
//! symbols it interposes.
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering};

pub unsafe fn syscall6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    asm!("syscall", inlateout("rax") n as isize => ret, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

pub const SYS_NANOSLEEP: usize = 35;
pub const SYS_SCHED_YIELD: usize = 24;
pub const SYS_GETPID: usize = 39;
pub const SYS_GETAFFINITY: usize = 204;
pub const SYS_FUTEX: usize = 202;
pub const SYS_CLOCK_GETTIME: usize = 228;
pub const SYS_CLOCK_NANOSLEEP: usize = 230;
pub const SYS_EXIT_GROUP: usize = 231;
pub const SYS_GETRANDOM: usize = 318;

/// Waits until the word is non-zero, then resets it.
pub fn baton_wait(w: &AtomicU32) {
    let mut spins = 0;
    loop {
        if w.swap(0, Ordering::SeqCst) != 0 {
            return;
        }
        spins += 1;
        if spins < 20 {
            std::hint::spin_loop();
            continue;
        }
        unsafe {
            syscall6(SYS_FUTEX, w as *const _ as usize, 128, 0, 0, 0, 0);
        }
    }
}

pub fn baton_post(w: &AtomicU32) {
    w.store(1, Ordering::SeqCst);
    unsafe {
        syscall6(SYS_FUTEX, w as *const _ as usize, 129, 1, 0, 0, 0);
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        syscall6(SYS_EXIT_GROUP, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub fn now_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        syscall6(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0);
    }
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
