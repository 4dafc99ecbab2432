//! The simulated heap.  Every allocation the library makes inside a simulated
//! call comes from here, so addresses, reuse order and stale contents are
//! decided by the plan, each block knows which call made it, and any
//! allocation can be made to fail.
use crate::sched::{al_tick, CUR, IN_SUBJ, OPTAG};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

const NCLASS: usize = 25; // 16 B .. 256 MB
const REGION: usize = 1 << 32;
/// Per size class: how much is handed out before freed memory is used again.
const SPEND: usize = 64 << 20;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Reuse {
    Lifo,
    Never,
}

pub struct Arena {
    pub on: bool,
    base: usize,
    owner: [*mut u32; NCLASS],
    free: [*mut u32; NCLASS],
    nfree: [usize; NCLASS],
    bump: [usize; NCLASS],
    first: [usize; NCLASS],
    pub reuse: Reuse,
    /// 0: leave memory as is, else fill pattern.
    pub fill: u8,
    /// 0: blocks start where their size would put them; else a seed for
    /// starting some of them up to 48 bytes later
    pub skew: u64,
    pub live_blocks: i64,
    pub live_bytes: i64,
    pub total: u64,
    pub reused: u64,
}

pub static mut ARENA: Arena = Arena {
    on: false,
    base: 0,
    owner: [std::ptr::null_mut(); NCLASS],
    free: [std::ptr::null_mut(); NCLASS],
    nfree: [0; NCLASS],
    bump: [0; NCLASS],
    first: [0; NCLASS],
    reuse: Reuse::Lifo,
    fill: 0,
    skew: 0,
    live_blocks: 0,
    live_bytes: 0,
    total: 0,
    reused: 0,
};

extern "C" {
    fn mmap(a: usize, l: usize, p: i32, f: i32, fd: i32, o: i64) -> usize;
}

unsafe fn reserve(len: usize, hint: usize) -> usize {
    // PROT_READ|WRITE, MAP_PRIVATE|ANONYMOUS|NORESERVE
    let p = mmap(hint, len, 3, 0x2 | 0x20 | 0x4000, -1, 0);
    assert!(p != usize::MAX, "cannot reserve simulator address space");
    p
}

/// Reserve the (untouched) address space. Called once, before any fork.
pub fn init() {
    unsafe {
        let total = REGION * (NCLASS + 1);
        let p = reserve(total, 0x1000_0000_0000);
        ARENA.base = (p + REGION - 1) & !(REGION - 1);
        for k in 0..NCLASS {
            let n = REGION / (16usize << k);
            ARENA.owner[k] = reserve((n * 4).max(4096), 0) as *mut u32;
            ARENA.free[k] = reserve((n * 4).max(4096), 0) as *mut u32;
        }
    }
}

pub fn configure(offset: usize, reuse: Reuse, fill: u8, skew: u64) {
    unsafe {
        for k in 0..NCLASS {
            let n = REGION / (16usize << k);
            ARENA.bump[k] = offset % (n / 4).max(1);
            ARENA.first[k] = ARENA.bump[k];
            ARENA.nfree[k] = 0;
        }
        ARENA.reuse = reuse;
        ARENA.fill = fill;
        ARENA.skew = skew;
        ARENA.live_blocks = 0;
        ARENA.live_bytes = 0;
        ARENA.on = true;
    }
}

#[inline]
fn class_of(size: usize) -> usize {
    let s = size.max(16).next_power_of_two();
    (s.trailing_zeros() - 4) as usize
}

#[inline]
pub unsafe fn contains(addr: usize) -> bool {
    addr.wrapping_sub(ARENA.base) < REGION * NCLASS && ARENA.base != 0
}

#[inline]
pub unsafe fn owner_of(addr: usize) -> u32 {
    let off = addr - ARENA.base;
    let k = off / REGION;
    let idx = (off % REGION) >> (4 + k);
    *ARENA.owner[k].add(idx)
}

unsafe fn get(layout: Layout) -> *mut u8 {
    let off = if ARENA.skew != 0 && layout.align() <= 16 {
        16 * (crate::prng::mix(ARENA.skew ^ ARENA.total) & 3) as usize
    } else {
        0
    };
    let k = class_of(off + layout.size().max(layout.align()));
    if k >= NCLASS {
        return std::ptr::null_mut();
    }
    let a = &mut ARENA;
    // memory is finite even where nothing is reused
    let spent = (a.bump[k] - a.first[k]) << (4 + k) > SPEND;
    let idx = if (a.reuse == Reuse::Lifo || spent) && a.nfree[k] > 0 {
        a.nfree[k] -= 1;
        a.reused += 1;
        *a.free[k].add(a.nfree[k]) as usize
    } else {
        let i = a.bump[k];
        if (i + 1) * (16usize << k) > REGION {
            return std::ptr::null_mut();
        }
        a.bump[k] += 1;
        i
    };
    *a.owner[k].add(idx) = OPTAG;
    a.live_blocks += 1;
    a.live_bytes += layout.size() as i64;
    a.total += 1;
    let p = (a.base + k * REGION + (idx << (4 + k)) + off) as *mut u8;
    if a.fill != 0 {
        std::ptr::write_bytes(p, a.fill, layout.size().min(8192));
    }
    p
}

unsafe fn put(p: *mut u8, size: usize) {
    let a = &mut ARENA;
    let off = p as usize - a.base;
    let k = off / REGION;
    let idx = (off % REGION) >> (4 + k);
    *a.owner[k].add(idx) = 0;
    if a.fill != 0 {
        std::ptr::write_bytes(p, !a.fill, size.min(8192));
    }
    *a.free[k].add(a.nfree[k]) = idx as u32;
    a.nfree[k] += 1;
    a.live_blocks -= 1;
    a.live_bytes -= size as i64;
}

unsafe impl GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if IN_SUBJ && CUR >= 0 && ARENA.on {
            if al_tick() {
                return std::ptr::null_mut();
            }
            return get(l);
        }
        System.alloc(l)
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if IN_SUBJ && CUR >= 0 && ARENA.on {
            if al_tick() {
                return std::ptr::null_mut();
            }
            let p = get(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            return p;
        }
        System.alloc_zeroed(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if contains(p as usize) {
            put(p, l.size());
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if contains(p as usize) {
            if IN_SUBJ && CUR >= 0 && al_tick() {
                return std::ptr::null_mut();
            }
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = get(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                put(p, l.size());
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}
