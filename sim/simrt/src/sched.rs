//! The seeded scheduler.  Simulated caller threads are real OS threads of
//! which exactly one is ever released; every basic block, load, store,
//! allocation, caller callback and blocking system call of the library is a
//! point at which the plan may hand control to another thread.
use crate::arena;
use crate::prng::Rng;
use crate::sys;
use std::sync::atomic::{AtomicU32, Ordering};

/// Caller threads.
pub const MAXT: usize = 40;
/// Caller threads, and those the library itself starts.
const SLOTS: usize = 160;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    /// Hand over to thread n (or the next runnable one).
    Switch(usize),
    /// Suspend this thread until every other thread has finished.
    Stall,
    /// Suspend this thread for good.
    Kill,
    /// The simulated clock jumps by this many nanoseconds.
    Jump(i64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CbAct {
    Panic,
    Reenter(usize),
}

#[derive(Clone, Debug, Default)]
pub struct OpCtl {
    pub events: Vec<(u64, Ev)>,
    pub cb: Vec<(u64, CbAct)>,
    /// Allocations first..first+count of the call fail.
    pub al: Vec<(u64, u64)>,
    pub budget: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ts {
    Run,
    Futex(usize, u64),
    Join(usize),
    Sleep(u64),
    Stalled,
    Killed,
    Done,
}

#[derive(Clone, Copy, Debug)]
pub struct SwitchRec {
    pub thread: usize,
    pub op: usize,
    pub step: u64,
    pub to: usize,
    pub forced: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub forced: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub stalls: u64,
    pub kills: u64,
    pub jumps: u64,
    pub yields: u64,
    pub sleeps: u64,
    pub clock_reads: u64,
    pub machine_reads: u64,
    pub env_reads: u64,
    pub lib_threads: u64,
    pub entropy_reads: u64,
    pub cb_panics: u64,
    pub reentries: u64,
    pub deeper: u64,
    pub alloc_fails: u64,
    pub deadlock: u64,
    pub blocked_by_stalled: u64,
    pub sim_ns: u64,
    pub ihash: u64,
}

pub struct Sim {
    /// callers
    n: usize,
    /// slots in use: n, or more once the library has started threads
    hi: usize,
    /// threads of the library that are not done
    libs: usize,
    lrng: Rng,
    cur: usize,
    st: [Ts; SLOTS],
    /// per slot of a library thread: its handle, whether anyone may still ask for it
    tid: [usize; SLOTS],
    open: [bool; SLOTS],
    pub clock: u64,
    pub tick: u64,
    pub cpus: u64,
    pub pid: u64,
    pub vars: u64,
    pub seed: u64,
    pub quantum: u64,
    pub qleft: u64,
    pub qrng: Rng,
    pub switches: Vec<SwitchRec>,
    pub stats: Stats,
    pub fatal: Option<fn(u64)>,
    pub reenter: Option<fn(usize)>,
    /// calls made from callbacks of calls made from callbacks, per level
    pub deep: Vec<(u64, usize)>,
    pub deadlocked: bool,
    pub spin_limit: u64,
    /// mirrors of the current position, for crash reports
    pub crumb: *mut u64,
}

pub static mut SIM: Sim = Sim {
    n: 0,
    hi: 0,
    libs: 0,
    lrng: Rng(1),
    cur: 0,
    st: [Ts::Done; SLOTS],
    tid: [0; SLOTS],
    open: [false; SLOTS],
    clock: 0,
    tick: 1000,
    cpus: 4,
    pid: 100,
    vars: 0,
    seed: 0,
    quantum: 0,
    qleft: 0,
    qrng: Rng(1),
    switches: Vec::new(),
    stats: Stats {
        steps: 0, switches: 0, forced: 0, futex_waits: 0, futex_wakes: 0, stalls: 0, kills: 0, jumps: 0,
        yields: 0, sleeps: 0, clock_reads: 0, machine_reads: 0, env_reads: 0, lib_threads: 0, entropy_reads: 0, cb_panics: 0, reentries: 0, deeper: 0,
        alloc_fails: 0, deadlock: 0, blocked_by_stalled: 0, sim_ns: 0, ihash: 0,
    },
    fatal: None,
    reenter: None,
    deep: Vec::new(),
    deadlocked: false,
    spin_limit: 400_000,
    crumb: std::ptr::null_mut(),
};

const Z: AtomicU32 = AtomicU32::new(0);
static GO: [AtomicU32; SLOTS] = [Z; SLOTS];
static EXIT: [AtomicU32; MAXT] = [Z; MAXT];
static MAIN: AtomicU32 = AtomicU32::new(0);

#[thread_local]
pub static mut CUR: i32 = -1;
#[thread_local]
pub static mut IN_SUBJ: bool = false;
#[thread_local]
pub static mut OPTAG: u32 = 0;
#[thread_local]
static mut OP: usize = 0;
#[thread_local]
pub static mut OPSTEP: u64 = 0;
#[thread_local]
static mut NEXT: u64 = u64::MAX;
#[thread_local]
static mut NEXT_Q: u64 = u64::MAX;
#[thread_local]
static mut CB: u64 = 0;
#[thread_local]
static mut NEXT_CB: u64 = u64::MAX;
#[thread_local]
static mut AL: u64 = 0;
#[thread_local]
static mut NEXT_AL: u64 = u64::MAX;
#[thread_local]
static mut CTL: *const OpCtl = std::ptr::null();
#[thread_local]
static mut EVI: usize = 0;
#[thread_local]
static mut CBI: usize = 0;
/// how many calls made from callbacks are in progress
#[thread_local]
static mut DEEP: usize = 0;
#[thread_local]
static mut STACK_TOP: usize = 0;
#[thread_local]
static mut FIRED_CB: u64 = 0;
#[thread_local]
static mut FIRED_AL: u64 = 0;
#[thread_local]
static mut RANDCTR: u64 = 0;
/// The unwinding under way began with a failed allocation.
#[thread_local]
pub static mut UNW_AL: bool = false;
/// Values drawn by caller-side iterators etc.
pub struct InjectedPanic(pub u64);
pub struct AllocFailed(pub usize);

static mut TAGS: u32 = 0;

// ---------------------------------------------------------------- profiling
pub const MAXG: usize = 1 << 16;
pub struct Prof {
    pub on: bool,
    epoch: u32,
    ep: [u32; MAXG],
    cnt: [u32; MAXG],
    first: [u64; MAXG],
    shared: [u64; 256],
    nshared: usize,
    pub shared_total: u64,
    pub covered: [bool; MAXG],
}
pub static mut PROF: Prof = Prof {
    on: false, epoch: 0, ep: [0; MAXG], cnt: [0; MAXG], first: [0; MAXG], shared: [0; 256], nshared: 0,
    shared_total: 0, covered: [false; MAXG],
};
pub static mut NGUARDS: usize = 0;

#[derive(Clone, Debug, Default)]
pub struct OpReport {
    pub steps: u64,
    pub cbs: u64,
    pub allocs: u64,
    pub fired_cb: u64,
    pub fired_al: u64,
    /// steps at which the call wrote memory it does not own (profile runs)
    pub shared: Vec<u64>,
    /// steps of rarely executed blocks (profile runs)
    pub rare: Vec<u64>,
}

unsafe fn next_event() {
    let c = &*CTL;
    let mut n = c.budget.max(OPSTEP + 1);
    if EVI < c.events.len() {
        n = n.min(c.events[EVI].0.max(OPSTEP + 1));
    }
    if SIM.hi > 1 {
        n = n.min(OPSTEP + SIM.spin_limit);
    }
    n = n.min(NEXT_Q.max(OPSTEP + 1));
    NEXT = n;
}

/// Start of a library call on the current simulated thread.
pub fn begin_op(op: usize, ctl: &OpCtl) {
    unsafe {
        OP = op;
        TAGS += 1;
        OPTAG = TAGS;
        OPSTEP = 0;
        CB = 0;
        AL = 0;
        EVI = 0;
        CBI = 0;
        FIRED_CB = 0;
        FIRED_AL = 0;
        UNW_AL = false;
        CTL = ctl;
        NEXT_CB = ctl.cb.first().map_or(u64::MAX, |c| c.0);
        NEXT_AL = ctl.al.first().map_or(u64::MAX, |c| c.0);
        if SIM.quantum > 0 && SIM.qleft > 0 {
            if NEXT_Q == u64::MAX {
                NEXT_Q = 1 + SIM.qrng.below(SIM.quantum);
            }
        } else {
            NEXT_Q = u64::MAX;
        }
        if PROF.on {
            PROF.epoch += 1;
            PROF.nshared = 0;
        }
        if !SIM.crumb.is_null() {
            *SIM.crumb = ((CUR as u64) << 32) | op as u64;
        }
        // events at step 0 happen before the call starts
        while EVI < ctl.events.len() && ctl.events[EVI].0 == 0 {
            let e = ctl.events[EVI].1;
            EVI += 1;
            do_event(e);
        }
        next_event();
    }
}

pub fn end_op() -> OpReport {
    unsafe {
        let mut r = OpReport {
            steps: OPSTEP,
            cbs: CB,
            allocs: AL,
            fired_cb: FIRED_CB,
            fired_al: FIRED_AL,
            ..Default::default()
        };
        SIM.stats.steps += OPSTEP;
        if PROF.on {
            r.shared = PROF.shared[..PROF.nshared].to_vec();
            for g in 0..NGUARDS.min(MAXG) {
                if PROF.ep[g] == PROF.epoch && PROF.cnt[g] <= 2 {
                    r.rare.push(PROF.first[g]);
                }
            }
        }
        NEXT = u64::MAX;
        if NEXT_Q != u64::MAX {
            NEXT_Q = NEXT_Q.saturating_sub(OPSTEP).max(1);
        }
        CTL = std::ptr::null();
        NEXT_CB = u64::MAX;
        NEXT_AL = u64::MAX;
        OPTAG = 0;
        r
    }
}

/// Run f as a library call nested inside a callback of another call.
pub fn nested<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let sv = (NEXT_CB, NEXT_AL, CB, AL, IN_SUBJ);
        NEXT_CB = SIM.deep.get(DEEP).map_or(u64::MAX, |d| d.0);
        NEXT_AL = u64::MAX;
        CB = 0;
        DEEP += 1;
        IN_SUBJ = false;
        let r = f();
        DEEP -= 1;
        NEXT_CB = sv.0;
        NEXT_AL = sv.1;
        CB = sv.2;
        AL = sv.3;
        IN_SUBJ = sv.4;
        r
    }
}

struct Leave(bool);
impl Drop for Leave {
    fn drop(&mut self) {
        unsafe { IN_SUBJ = self.0 }
    }
}

/// Everything inside runs "in the library": instrumented steps count.
#[inline(never)]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _g = unsafe { Leave(IN_SUBJ) };
    unsafe { IN_SUBJ = true }
    f()
}

/// Everything inside runs in the caller (used in callbacks).
pub fn out<R>(f: impl FnOnce() -> R) -> R {
    let _g = unsafe { Leave(IN_SUBJ) };
    unsafe { IN_SUBJ = false }
    f()
}

#[inline]
pub unsafe fn step() {
    OPSTEP += 1;
    if OPSTEP >= NEXT {
        slow();
    }
}

#[inline]
pub unsafe fn step_guard(g: usize) {
    step();
    if PROF.on && g < MAXG {
        PROF.covered[g] = true;
        if PROF.ep[g] != PROF.epoch {
            PROF.ep[g] = PROF.epoch;
            PROF.cnt[g] = 0;
            PROF.first[g] = OPSTEP;
        }
        PROF.cnt[g] += 1;
    }
}

#[inline]
pub unsafe fn note_store(addr: usize) {
    if !PROF.on {
        return;
    }
    let here = STACK_TOP;
    // its own stack, or the thread-local block just above it
    if addr < here + (64 << 10) && addr + (32 << 20) > here {
        return;
    }
    if arena::contains(addr) && arena::owner_of(addr) == OPTAG {
        return;
    }
    PROF.shared_total += 1;
    if PROF.nshared < 256 {
        PROF.shared[PROF.nshared] = OPSTEP;
        PROF.nshared += 1;
    }
}

#[cold]
#[inline(never)]
unsafe fn slow() {
    if CTL.is_null() {
        NEXT = u64::MAX;
        return;
    }
    let was = IN_SUBJ;
    IN_SUBJ = false;
    let c = &*CTL;
    if OPSTEP >= c.budget {
        die(1);
    }
    let mut switched = false;
    while EVI < c.events.len() && c.events[EVI].0 <= OPSTEP {
        let e = c.events[EVI].1;
        EVI += 1;
        do_event(e);
        switched = true;
    }
    if OPSTEP >= NEXT_Q {
        if SIM.libs > 0 {
            NEXT_Q = OPSTEP + 1 + SIM.lrng.below(3000);
            let t = SIM.lrng.us(SIM.hi);
            hand_over(t, false);
            switched = true;
        } else {
            NEXT_Q = if SIM.qleft > 0 { OPSTEP + 1 + SIM.qrng.below(SIM.quantum) } else { u64::MAX };
        }
        if SIM.libs == 0 && SIM.qleft > 0 {
            SIM.qleft -= 1;
            let t = SIM.qrng.us(SIM.hi);
            hand_over(t, false);
            switched = true;
        }
    }
    if !switched && SIM.hi > 1 {
        // nothing planned: only the spin limit can have brought us here
        hand_over((CUR as usize + 1) % SIM.hi, true);
    }
    next_event();
    IN_SUBJ = was;
}

unsafe fn do_event(e: Ev) {
    match e {
        Ev::Switch(t) => hand_over(t, false),
        Ev::Stall => {
            SIM.stats.stalls += 1;
            SIM.st[CUR as usize] = Ts::Stalled;
            block();
        }
        Ev::Kill => {
            SIM.stats.kills += 1;
            SIM.st[CUR as usize] = Ts::Killed;
            block();
        }
        Ev::Jump(d) => {
            SIM.stats.jumps += 1;
            SIM.clock = SIM.clock.wrapping_add(d as u64);
        }
    }
}

fn die(code: u64) -> ! {
    unsafe {
        IN_SUBJ = false;
        if let Some(f) = SIM.fatal {
            f(code);
        }
    }
    sys::exit_now(90)
}

unsafe fn runnable_after(t: usize) -> Option<usize> {
    (0..SIM.hi).map(|k| (t + k) % SIM.hi).find(|&k| SIM.st[k] == Ts::Run)
}

/// Voluntary or forced switch to t, or to the next runnable thread after it.
unsafe fn hand_over(t: usize, forced: bool) {
    let me = CUR as usize;
    let mut to = None;
    for k in 0..SIM.hi {
        let j = (t + k) % SIM.hi;
        if j != me && SIM.st[j] == Ts::Run {
            to = Some(j);
            break;
        }
    }
    if let Some(j) = to {
        if forced {
            SIM.stats.forced += 1;
        }
        record(j, forced);
        transfer(j);
    }
}

unsafe fn record(to: usize, forced: bool) {
    SIM.stats.switches += 1;
    let h = ((CUR as u64) << 48) ^ ((OP as u64) << 32) ^ OPSTEP ^ ((to as u64) << 56);
    SIM.stats.ihash = crate::prng::mix(SIM.stats.ihash ^ h);
    if SIM.switches.len() < 4096 {
        SIM.switches.push(SwitchRec { thread: CUR as usize, op: OP, step: OPSTEP, to, forced });
    }
}

unsafe fn transfer(j: usize) {
    let me = CUR as usize;
    SIM.cur = j;
    sys::baton_post(&GO[j]);
    sys::baton_wait(&GO[me]);
    if !SIM.crumb.is_null() {
        *SIM.crumb = ((CUR as u64) << 32) | OP as u64;
    }
}

/// Pick someone to run when the current thread cannot. None: nobody ever will.
unsafe fn pick() -> Option<usize> {
    let me = CUR.max(0) as usize;
    if let Some(j) = runnable_after((me + 1) % SIM.hi) {
        return Some(j);
    }
    // nobody runnable: advance the clock to the next timer
    let mut best: Option<(u64, usize)> = None;
    for i in 0..SIM.hi {
        let d = match SIM.st[i] {
            Ts::Sleep(d) => d,
            Ts::Futex(_, d) if d != u64::MAX => d,
            _ => continue,
        };
        if best.map_or(true, |b| d < b.0) {
            best = Some((d, i));
        }
    }
    if let Some((d, i)) = best {
        if d > SIM.clock {
            SIM.clock = d;
        }
        SIM.st[i] = Ts::Run;
        return Some(i);
    }
    // a thread of the library may wait for work for ever
    let blocked = (0..SIM.n).any(|i| matches!(SIM.st[i], Ts::Futex(..) | Ts::Join(_)));
    for i in 0..SIM.n {
        if SIM.st[i] == Ts::Stalled {
            if blocked {
                SIM.stats.blocked_by_stalled += 1;
            }
            SIM.st[i] = Ts::Run;
            return Some(i);
        }
    }
    if blocked {
        SIM.stats.deadlock += 1;
        SIM.deadlocked = true;
    }
    None
}

/// The current thread is no longer runnable: give the processor away.
unsafe fn block() {
    let me = CUR as usize;
    match pick() {
        Some(j) if j == me => (),
        Some(j) => {
            record(j, true);
            transfer(j);
        }
        None => {
            sys::baton_post(&MAIN);
            sys::baton_wait(&GO[me]); // for ever
        }
    }
}

unsafe fn in_sim() -> bool {
    CUR >= 0 && IN_SUBJ && SIM.n > 0
}

/// Library code asks for a futex wait. Returns None if not simulated.
pub unsafe fn futex_wait(addr: usize, val: u32, timeout_ns: u64, absolute: bool) -> Option<isize> {
    if !in_sim() {
        return None;
    }
    let was = IN_SUBJ;
    IN_SUBJ = false;
    let w = &*(addr as *const AtomicU32);
    if w.load(Ordering::SeqCst) != val {
        IN_SUBJ = was;
        return Some(-11);
    }
    SIM.stats.futex_waits += 1;
    let d = if timeout_ns == u64::MAX {
        u64::MAX
    } else if absolute {
        timeout_ns
    } else {
        SIM.clock + timeout_ns
    };
    SIM.st[CUR as usize] = Ts::Futex(addr, d);
    block();
    IN_SUBJ = was;
    if d != u64::MAX && SIM.clock >= d {
        return Some(-110);
    }
    Some(0)
}

pub unsafe fn futex_wake(addr: usize, n: u32) -> Option<isize> {
    if !in_sim() {
        return None;
    }
    let mut woken = 0;
    for k in 1..=SIM.hi {
        let i = (CUR as usize + k) % SIM.hi;
        if woken < n {
            if let Ts::Futex(a, _) = SIM.st[i] {
                if a == addr {
                    SIM.st[i] = Ts::Run;
                    woken += 1;
                }
            }
        }
    }
    SIM.stats.futex_wakes += woken as u64;
    Some(woken as isize)
}

pub unsafe fn sim_sleep(ns: u64) -> bool {
    if !in_sim() {
        return false;
    }
    let was = IN_SUBJ;
    IN_SUBJ = false;
    SIM.stats.sleeps += 1;
    SIM.st[CUR as usize] = Ts::Sleep(SIM.clock + ns);
    block();
    IN_SUBJ = was;
    true
}

pub unsafe fn sim_yield() -> bool {
    if !in_sim() {
        return false;
    }
    let was = IN_SUBJ;
    IN_SUBJ = false;
    SIM.stats.yields += 1;
    step_for_yield();
    hand_over((CUR as usize + 1) % SIM.hi, true);
    IN_SUBJ = was;
    true
}

unsafe fn step_for_yield() {
    // a yield is 64 steps long, so a call that only yields runs out of budget
    OPSTEP += 64;
    SIM.clock += 64;
    if !CTL.is_null() && OPSTEP >= (*CTL).budget {
        die(1);
    }
}

pub unsafe fn sim_clock() -> Option<u64> {
    if !in_sim() {
        return None;
    }
    SIM.stats.clock_reads += 1;
    SIM.clock = SIM.clock.wrapping_add(SIM.tick);
    Some(SIM.clock + OPSTEP)
}

/// (processors, process number) as the library is told
pub unsafe fn sim_machine() -> Option<(u64, u64)> {
    if !in_sim() {
        return None;
    }
    SIM.stats.machine_reads += 1;
    Some((SIM.cpus, SIM.pid))
}

pub unsafe fn sim_random(buf: *mut u8, len: usize) -> bool {
    if CUR < 0 {
        return false;
    }
    SIM.stats.entropy_reads += 1;
    let mut r = Rng::new(SIM.seed ^ ((CUR as u64) << 40) ^ (RANDCTR << 8));
    RANDCTR += 1;
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    true
}

/// One allocation by library code. True: it must fail.
#[inline]
pub unsafe fn al_tick() -> bool {
    AL += 1;
    step();
    if AL >= NEXT_AL {
        return al_slow();
    }
    false
}

#[cold]
unsafe fn al_slow() -> bool {
    if CTL.is_null() || (std::thread::panicking() && !UNW_AL) {
        return false;
    }
    let k = AL;
    for &(f, n) in &(*CTL).al {
        if k >= f && k < f.saturating_add(n) {
            FIRED_AL += 1;
            SIM.stats.alloc_fails += 1;
            return true;
        }
    }
    false
}

/// A call from the library into code its caller supplied.
#[inline]
pub fn callback() {
    unsafe {
        if IN_SUBJ && CUR >= 0 {
            CB += 1;
            step();
            if CB == NEXT_CB {
                cb_slow();
            }
        }
    }
}

#[cold]
unsafe fn cb_slow() {
    let act = if DEEP > 0 {
        NEXT_CB = u64::MAX;
        SIM.stats.deeper += 1;
        CbAct::Reenter(SIM.deep[DEEP - 1].1)
    } else {
        let c = &*CTL;
        let act = c.cb[CBI].1;
        CBI += 1;
        NEXT_CB = if CBI < c.cb.len() { c.cb[CBI].0 } else { u64::MAX };
        act
    };
    match act {
        CbAct::Panic => {
            if !std::thread::panicking() {
                FIRED_CB += 1;
                SIM.stats.cb_panics += 1;
                let n = CB;
                out(|| std::panic::panic_any(InjectedPanic(n)));
            }
        }
        CbAct::Reenter(k) => {
            FIRED_CB += 1;
            SIM.stats.reentries += 1;
            if let Some(f) = SIM.reenter {
                nested(|| f(k));
            }
        }
    }
}

pub fn current_thread() -> i32 {
    unsafe { CUR }
}

// ------------------------------------------------- threads the library starts
static LIBCTL: OpCtl = OpCtl { events: Vec::new(), cb: Vec::new(), al: Vec::new(), budget: 400_000_000 };

struct Start {
    f: extern "C" fn(usize) -> usize,
    arg: usize,
    slot: usize,
    tag: u32,
    op: usize,
}

extern "C" {
    fn __cxa_thread_atexit_impl(f: extern "C" fn(usize), arg: usize, dso: usize) -> i32;
    static __dso_handle: u8;
}

/// What the library wants to be a thread becomes one more simulated thread.
/// None: not asked by the library.
pub unsafe fn sim_spawn(f: extern "C" fn(usize) -> usize, arg: usize, real: impl FnOnce(extern "C" fn(usize) -> usize, usize) -> (i32, usize)) -> Option<i32> {
    if !in_sim() {
        return None;
    }
    IN_SUBJ = false;
    let slot = (MAXT..SLOTS).find(|i| SIM.st[*i] == Ts::Done && !SIM.open[*i]);
    let Some(slot) = slot else {
        // as when the system is out of threads
        IN_SUBJ = true;
        return Some(11);
    };
    let s = Box::into_raw(Box::new(Start { f, arg, slot, tag: OPTAG, op: OP }));
    let (r, tid) = real(first, s as usize);
    if r != 0 {
        drop(Box::from_raw(s));
        IN_SUBJ = true;
        return Some(r);
    }
    if SIM.hi < MAXT {
        for i in SIM.hi..MAXT {
            SIM.st[i] = Ts::Done;
        }
    }
    SIM.hi = SIM.hi.max(slot + 1);
    SIM.tid[slot] = tid;
    SIM.open[slot] = true;
    SIM.st[slot] = Ts::Run;
    SIM.libs += 1;
    SIM.stats.lib_threads += 1;
    if SIM.lrng.below(2) == 0 {
        hand_over(slot, false);
    }
    NEXT_Q = NEXT_Q.min(OPSTEP + 1 + SIM.lrng.below(3000));
    if !CTL.is_null() {
        next_event();
    }
    IN_SUBJ = true;
    Some(0)
}

extern "C" fn first(arg: usize) -> usize {
    unsafe {
        let s = *Box::from_raw(arg as *mut Start);
        let mark = 0u8;
        STACK_TOP = &mark as *const u8 as usize;
        sys::baton_wait(&GO[s.slot]);
        CUR = s.slot as i32;
        // runs after all other things a thread does when it ends
        __cxa_thread_atexit_impl(last, s.slot, &__dso_handle as *const u8 as usize);
        OP = s.op;
        OPTAG = s.tag;
        CTL = &LIBCTL;
        NEXT_Q = 1 + SIM.lrng.below(3000);
        next_event();
        IN_SUBJ = true;
        (s.f)(s.arg)
    }
}

extern "C" fn last(slot: usize) {
    unsafe {
        IN_SUBJ = false;
        SIM.stats.steps += OPSTEP;
        SIM.st[slot] = Ts::Done;
        SIM.libs -= 1;
        for i in 0..SIM.hi {
            if SIM.st[i] == Ts::Join(slot) {
                SIM.st[i] = Ts::Run;
            }
        }
        match pick() {
            Some(j) => {
                record(j, true);
                SIM.cur = j;
                CUR = -1;
                sys::baton_post(&GO[j]);
            }
            None => {
                CUR = -1;
                sys::baton_post(&MAIN)
            }
        }
    }
}

unsafe fn slot_of(tid: usize) -> Option<usize> {
    (MAXT..SIM.hi).find(|i| SIM.open[*i] && SIM.tid[*i] == tid)
}

/// Waits for a thread of the library; the real join comes after this.
pub unsafe fn sim_join(tid: usize) {
    if CUR < 0 {
        return;
    }
    let Some(s) = slot_of(tid) else { return };
    let was = IN_SUBJ;
    IN_SUBJ = false;
    if SIM.st[s] != Ts::Done {
        SIM.st[CUR as usize] = Ts::Join(s);
        block();
    }
    SIM.open[s] = false;
    IN_SUBJ = was;
}

pub unsafe fn sim_detach(tid: usize) {
    if CUR >= 0 {
        if let Some(s) = slot_of(tid) {
            SIM.open[s] = false;
        }
    }
}

unsafe fn len(s: *const u8) -> usize {
    (0..).find(|i| *s.add(*i) == 0).unwrap()
}

/// The value of an environment variable, as the library is told. Outer None:
/// not asked by the library.
pub unsafe fn sim_var(name: *const u8) -> Option<*const u8> {
    if !in_sim() {
        return None;
    }
    SIM.stats.env_reads += 1;
    // (the ones for the standard library itself are not set)
    if SIM.vars == 0 || std::slice::from_raw_parts(name, 5.min(len(name))) == b"RUST_" {
        return Some(std::ptr::null());
    }
    let mut h = SIM.vars;
    let mut p = name;
    while *p != 0 {
        h = crate::prng::mix(h ^ *p as u64);
        p = p.add(1);
    }
    const V: [&[u8]; 12] = [
        b"1\0", b"0\0", b"2\0", b"4\0", b"16\0", b"true\0", b"full\0", b"\0", b"/tmp\0", b"0.5\0", b"100000\0", b"C\0",
    ];
    Some(V.get((h % 16) as usize).map_or(std::ptr::null(), |v| v.as_ptr()))
}

/// Run body(0..n) as simulated threads, starting with `start`.
/// Returns true if every thread that was not killed ran to its end.
pub fn run_threads(n: usize, start: usize, body: fn(usize)) -> bool {
    assert!(n >= 1 && n <= MAXT);
    unsafe {
        SIM.n = n;
        if SIM.hi > MAXT {
            for i in n..MAXT {
                SIM.st[i] = Ts::Done;
            }
        } else {
            SIM.hi = n;
            SIM.lrng = Rng::new(SIM.seed ^ 0x11B);
        }
        SIM.deadlocked = false;
        SIM.stats.ihash = crate::prng::mix(SIM.stats.ihash ^ 0x1234_5678 ^ n as u64);
        let c0 = SIM.clock;
        for i in 0..n {
            SIM.st[i] = Ts::Run;
        }
        let mut hs = Vec::new();
        for i in 0..n {
            let h = std::thread::Builder::new()
                // what std gives a thread unless told otherwise
                .stack_size(2 << 20)
                .spawn(move || {
                    let mark = 0u8;
                    STACK_TOP = &mark as *const u8 as usize;
                    CUR = i as i32;
                    sys::baton_wait(&GO[i]);
                    if std::panic::catch_unwind(|| body(i)).is_err() {
                        // the simulator itself is broken
                        sys::exit_now(93);
                    }
                    SIM.st[i] = Ts::Done;
                    match pick() {
                        Some(j) => {
                            record(j, true);
                            SIM.cur = j;
                            sys::baton_post(&GO[j]);
                        }
                        None => sys::baton_post(&MAIN),
                    }
                    sys::baton_wait(&EXIT[i]);
                    // thread-local destructors run after this, one thread at a time
                })
                .expect("spawn");
            hs.push(h);
        }
        SIM.cur = start;
        sys::baton_post(&GO[start % n]);
        sys::baton_wait(&MAIN);
        let mut all = true;
        for (i, h) in hs.into_iter().enumerate() {
            if SIM.st[i] == Ts::Done {
                sys::baton_post(&EXIT[i]);
                let _ = h.join();
                // (a call during the teardown may have been suspended for a while)
                SIM.st[i] = Ts::Done;
            } else {
                all = all && SIM.st[i] == Ts::Killed;
                std::mem::forget(h);
            }
        }
        SIM.stats.sim_ns += SIM.clock.wrapping_sub(c0).min(1 << 40);
        all
    }
}
