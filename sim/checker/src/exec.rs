//! Runs a plan in a forked child: every run starts from the same fresh process
//! image, and a crash, a hang or an abort of the library is just one outcome.
use plan::*;
use simrt::arena::{self, Reuse, ARENA};
use simrt::sched::{self, AllocFailed, InjectedPanic, OpCtl, OpReport, Stats, SwitchRec, PROF, SIM};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn mmap(a: usize, l: usize, p: i32, f: i32, fd: i32, o: i64) -> usize;
    fn dup2(a: i32, b: i32) -> i32;
    fn memfd_create(n: *const u8, f: u32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn fcntl(fd: i32, c: i32, a: i32) -> i32;
    fn lseek(fd: i32, o: i64, w: i32) -> i64;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn execv(p: *const u8, a: *const *const u8) -> i32;
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// the plan as written
    Full,
    /// one op alone in a fresh process
    Solo(usize),
    /// all calls one after another on one thread, no faults, profiled
    Serial,
    /// all calls on their threads, one thread after the other, no faults
    NoFault,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    Ok,
    Injected,
    AllocFailed,
    Panic,
}

#[derive(Clone, Debug)]
pub struct CallOut {
    pub thread: usize,
    pub call: usize,
    pub op: usize,
    pub status: Status,
    pub words: Vec<u64>,
    pub msg: String,
    pub rep: OpReport,
    pub live: i64,
    pub live_bytes: i64,
    pub s0: u64,
    pub s1: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    /// step budget used up: (thread, call)
    Hang(usize, usize),
    Deadlock,
    Signal(i32, usize, usize),
    Exit(i32),
    /// the library panicked while the objects were being built
    Setup(String),
}

#[derive(Clone, Debug)]
pub struct RunResult {
    pub end: End,
    pub calls: Vec<CallOut>,
    pub nested: Vec<CallOut>,
    pub finale: Vec<CallOut>,
    pub stats: Stats,
    pub switches: Vec<SwitchRec>,
    pub pre: Vec<u64>,
    pub post: Vec<u64>,
    pub has_post: bool,
    pub live0: (i64, i64),
    pub live1: (i64, i64),
    pub shared_total: u64,
    pub covered: Vec<u64>,
    pub allocs: (u64, u64),
}

impl RunResult {
    pub fn hash(&self) -> u64 {
        let mut h = 7u64;
        let mut f = |x: u64| h = simrt::prng::mix(h ^ x);
        for c in self.calls.iter().chain(&self.nested).chain(&self.finale) {
            f(c.thread as u64);
            f(c.call as u64);
            f(c.status as u64);
            f(c.rep.steps);
            f(c.live as u64);
            c.words.iter().for_each(|w| f(*w));
        }
        f(self.stats.ihash);
        f(self.stats.steps);
        self.post.iter().for_each(|w| f(*w));
        h
    }
}

const SHM: usize = 96 << 20;
static mut SHMP: *mut u64 = std::ptr::null_mut();

static mut SHMFD: i32 = -1;

unsafe fn map_shm(fd: i32) {
    let p = mmap(0, SHM, 3, 0x1 | 0x4000, fd, 0);
    assert!(p != usize::MAX);
    SHMP = p as *mut u64;
    SHMFD = fd;
}

pub fn init() {
    arena::init();
    unsafe {
        let fd = memfd_create(b"results\0".as_ptr(), 1);
        assert!(fd >= 0 && ftruncate(fd, SHM as i64) == 0);
        map_shm(fd);
    }
}

const LOADER: &str = "/lib64/ld-linux-x86-64.so.2";

/// Whether a run can be given another program image address.
pub fn can_move() -> bool {
    std::path::Path::new(LOADER).exists()
}

/// In a process made for one run: the plan is in one file, the results go
/// into the other.
pub fn serve(shm: i32, plan: i32) -> ! {
    arena::init();
    unsafe {
        map_shm(shm);
        DEBUG = std::env::var_os("SIM_DEBUG").is_some();
    }
    let s = std::fs::read_to_string(format!("/proc/self/fd/{}", plan)).expect("plan");
    let p = text::read(&s);
    child(&p, Mode::Full)
}

/// Becomes this very program at another address: started by the dynamic loader
/// it is mapped like a library, below a stack of another size.
unsafe fn elsewhere(plan: &Plan) -> ! {
    let s = text::write(plan);
    let fd = memfd_create(b"plan\0".as_ptr(), 0);
    let mut n = 0;
    while n < s.len() {
        let k = write(fd, s.as_ptr().add(n), s.len() - n);
        assert!(k > 0);
        n += k as usize;
    }
    lseek(fd, 0, 0);
    fcntl(SHMFD, 2, 0);
    let lim = [(plan.env.img << 28) + 0x1000 * plan.env.img, u64::MAX];
    setrlimit(3, &lim);
    let exe = std::env::current_exe().expect("path of this program");
    let args = [LOADER.to_string(), exe.to_string_lossy().into_owned(), "serve".into(), SHMFD.to_string(), fd.to_string()];
    let args: Vec<Vec<u8>> = args.iter().map(|a| [a.as_bytes(), b"\0"].concat()).collect();
    let mut argv: Vec<*const u8> = args.iter().map(|a| a.as_ptr()).collect();
    argv.push(std::ptr::null());
    execv(argv[0], argv.as_ptr());
    simrt::sys::exit_now(94)
}

// ------------------------------------------------------------------ the child
struct Child {
    plan: *const Plan,
    world: Option<Box<dyn subject::World>>,
    /// the same of another number type
    second: Option<Box<dyn subject::World>>,
    ctl: HashMap<(usize, usize), OpCtl>,
    threads: Vec<Vec<usize>>,
    out: Vec<Vec<CallOut>>,
    nested: Vec<CallOut>,
    finale: Vec<CallOut>,
    need: Vec<bool>,
    dump: Vec<u64>,
    seq: u64,
    msg: String,
    budget: u64,
    exits: bool,
    /// as plain an environment as possible
    plain: bool,
}
impl Child {
    fn of(&self, op: &Op) -> &dyn subject::World {
        let w = if op.alt { self.second.as_ref().or(self.world.as_ref()) } else { self.world.as_ref() };
        &**w.unwrap()
    }
}
static mut CH: Option<Child> = None;

fn ch() -> &'static mut Child {
    unsafe { CH.as_mut().unwrap() }
}

fn call(thread: usize, k: usize, opi: usize, ctl: &OpCtl) -> CallOut {
    let c = ch();
    let plan = unsafe { &*c.plan };
    let mut words = Vec::new();
    c.msg.clear();
    sched::begin_op(k, ctl);
    c.seq += 1;
    let s0 = c.seq;
    let r = {
        let op = &plan.ops[opi];
        let w = c.of(op);
        catch_unwind(AssertUnwindSafe(|| w.exec(op, &mut words)))
    };
    unsafe { sched::IN_SUBJ = false }
    let status = match &r {
        Ok(()) => Status::Ok,
        Err(p) if p.is::<InjectedPanic>() => Status::Injected,
        Err(p) if p.is::<AllocFailed>() => Status::AllocFailed,
        Err(_) => Status::Panic,
    };
    drop(r);
    let c = ch();
    c.seq += 1;
    let rep = sched::end_op();
    let msg = if status == Status::Panic { c.msg.clone() } else { String::new() };
    let (live, live_bytes) = unsafe { (ARENA.live_blocks, ARENA.live_bytes) };
    CallOut { thread, call: k, op: opi, status, words, msg, rep, live, live_bytes, s0, s1: c.seq }
}

fn setup(_: usize) {
    let c = ch();
    let plan = unsafe { &*c.plan };
    let ctl = OpCtl { budget: 1 << 62, ..Default::default() };
    sched::begin_op(0, &ctl);
    c.msg.clear();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let w = subject::build(plan.ct, &plan.objs, plan.slots, &c.need);
        (w, plan.ct2.map(|ct| subject::build(ct, &plan.objs, plan.slots, &c.need)))
    }));
    unsafe { sched::IN_SUBJ = false }
    sched::end_op();
    match r {
        Ok((a, b)) => {
            c.world = Some(a);
            c.second = b;
        }
        Err(_) => unsafe {
            // leave the message where the parent finds it
            let m = ch().msg.as_bytes();
            *SHMP.add(8) = m.len().min(200) as u64;
            for (i, b) in m.iter().take(200).enumerate() {
                *SHMP.add(9 + i) = *b as u64;
            }
            *SHMP = 4;
            simrt::sys::exit_now(0);
        },
    }
}

fn dump(_: usize) {
    let c = ch();
    let ctl = OpCtl { budget: 1 << 62, ..Default::default() };
    sched::begin_op(0, &ctl);
    c.dump.clear();
    c.world.as_ref().unwrap().dump(&mut c.dump);
    if let Some(w) = &c.second {
        w.dump(&mut c.dump);
    }
    sched::end_op();
}

/// A caller's own thread-local object, which uses the library once more when
/// the thread ends.
struct AtExit(std::cell::Cell<Option<usize>>);
impl Drop for AtExit {
    fn drop(&mut self) {
        if let Some(t) = self.0.get() {
            calls(t, true);
        }
    }
}
thread_local! { static AT_EXIT: AtExit = AtExit(std::cell::Cell::new(None)) }

/// Uses up some stack first, so that frames lie elsewhere.
#[inline(never)]
fn deeper(n: u64, t: usize) {
    let pad = std::hint::black_box([n; 5]);
    if n == 0 {
        calls(t, false);
    } else {
        deeper(n - 1, t);
    }
    std::hint::black_box(&pad);
}

fn body(t: usize) {
    let plan = unsafe { &*ch().plan };
    if ch().exits {
        // before the library has any thread-local objects of its own: they are
        // gone by the time this one is dropped
        AT_EXIT.with(|e| e.0.set(Some(t)));
    }
    let skew = if ch().plain { 0 } else { plan.env.skew };
    deeper(if skew == 0 { 0 } else { simrt::prng::mix(skew ^ t as u64) % 60 }, t);
}

fn calls(t: usize, at_exit: bool) {
    let c = ch();
    let plain = OpCtl { budget: c.budget, ..Default::default() };
    let n = c.threads[t].len();
    for (k, &opi) in c.threads[t].iter().enumerate() {
        if c.exits && (k + 1 == n) != at_exit {
            continue;
        }
        let r = call(t, k, opi, c.ctl.get(&(t, k)).unwrap_or(&plain));
        ch().out[t].push(r);
    }
}

fn finale(_: usize) {
    let c = ch();
    let plain = OpCtl { budget: c.budget, ..Default::default() };
    for (k, &opi) in unsafe { &*c.plan }.finale.iter().enumerate() {
        let r = call(0, k, opi, &plain);
        ch().finale.push(r);
    }
}

fn reenter(opi: usize) {
    let c = ch();
    let plan = unsafe { &*c.plan };
    if opi >= plan.ops.len() {
        return;
    }
    let mut words = Vec::new();
    let r = {
        let op = &plan.ops[opi];
        let w = c.of(op);
        catch_unwind(AssertUnwindSafe(|| w.exec(op, &mut words)))
    };
    unsafe { sched::IN_SUBJ = false }
    let status = if r.is_ok() { Status::Ok } else { Status::Panic };
    drop(r);
    let t = sched::current_thread() as usize;
    let msg = if status == Status::Panic { ch().msg.clone() } else { String::new() };
    ch().nested.push(CallOut {
        thread: t,
        call: 0,
        op: opi,
        status,
        words,
        msg,
        rep: OpReport::default(),
        live: 0,
        live_bytes: 0,
        s0: 0,
        s1: 0,
    });
}

fn fatal(code: u64) {
    unsafe {
        *SHMP = 2;
        *SHMP.add(2) = code;
    }
    simrt::sys::exit_now(91);
}

pub fn needs(op: &Op, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let uses_a = !matches!(
        op.k,
        K::Merge | K::BoxRel | K::BoxMisc | K::SegIsect | K::SegMisc | K::Tri | K::Pos | K::Nop | K::Push | K::AccJoin | K::AccCopy | K::AccReset | K::Edit
    );
    if uses_a && !op.fresh && op.a < n {
        v.push(op.a);
    }
    if matches!(op.k, K::Cross | K::Eq) && op.b < n {
        v.push(op.b);
    }
    v
}

fn child(plan: &Plan, mode: Mode) -> ! {
    unsafe {
        // a run that blocks outside the simulator's reach is cut off here
        alarm(60);
        *SHMP = 0;
        let e = plan.env;
        let solo = matches!(mode, Mode::Solo(_));
        let env = if solo { Env::plain() } else { e };
        arena::configure(
            env.base as usize,
            if env.reuse { Reuse::Lifo } else { Reuse::Never },
            env.fill,
            env.skew,
        );
        simrt::install_alloc_hook();
        std::panic::set_hook(Box::new(|info| {
            sched::out(|| {
                if let Some(c) = CH.as_mut() {
                    let s = if let Some(s) = info.payload().downcast_ref::<&str>() {
                        s.to_string()
                    } else if let Some(s) = info.payload().downcast_ref::<String>() {
                        s.clone()
                    } else {
                        String::new()
                    };
                    c.msg = format!("{} @{}", s, info.location().map_or(String::new(), |l| l.to_string()));
                    if DEBUG {
                        eprintln!("panic: {}", c.msg);
                    }
                }
            })
        }));
        subject::BITS = matches!(plan.prop.as_str(), "C02" | "C03" | "C06");
        SIM.clock = env.clock;
        SIM.tick = env.tick;
        SIM.cpus = env.cpus;
        SIM.pid = env.pid;
        SIM.vars = env.vars;
        SIM.seed = env.hash;
        SIM.fatal = Some(fatal);
        SIM.reenter = Some(reenter);
        SIM.deep = plan.deep.clone();
        SIM.crumb = SHMP.add(1);
        SIM.switches.reserve(4096);
        PROF.on = mode == Mode::Serial;
        let mut need = vec![true; plan.objs.len()];
        let threads = match mode {
            Mode::Full | Mode::NoFault => plan.threads.clone(),
            Mode::Solo(o) => {
                need = vec![false; plan.objs.len()];
                for i in needs(&plan.ops[o], plan.objs.len()) {
                    need[i] = true;
                }
                vec![vec![o]]
            }
            Mode::Serial => vec![plan.threads.iter().flatten().copied().collect()],
        };
        let mut ctl: HashMap<(usize, usize), OpCtl> = HashMap::new();
        let budget = 400_000_000;
        let new = || OpCtl { budget, ..Default::default() };
        if mode == Mode::Full {
            for &(t, k, s, ev) in &plan.evs {
                ctl.entry((t, k)).or_insert_with(new).events.push((s, ev));
            }
            for &(t, k, s, a) in &plan.cbs {
                ctl.entry((t, k)).or_insert_with(new).cb.push((s, a));
            }
            for &(t, k, f, n) in &plan.als {
                ctl.entry((t, k)).or_insert_with(new).al.push((f, n));
            }
            for c in ctl.values_mut() {
                c.events.sort_by_key(|x| x.0);
                c.cb.sort_by_key(|x| x.0);
                c.al.sort();
            }
        }
        let nt = threads.len();
        // alone, a call is made once, and an edited geometry is asked only
        // once it has been edited
        let mut alone;
        let plan = if solo {
            alone = plan.clone();
            alone.ct = threads.first().map_or(plan.ct, |t| plan.ct_of(&plan.ops[t[0]]));
            alone.ct2 = None;
            for o in alone.ops.iter_mut() {
                o.reps = 1;
                if o.k == K::Edit {
                    o.n[0] = u64::MAX;
                }
            }
            &alone
        } else {
            plan
        };
        CH = Some(Child {
            plan,
            world: None,
            second: None,
            ctl,
            out: vec![vec![]; nt],
            threads,
            nested: vec![],
            finale: vec![],
            need,
            dump: vec![],
            seq: 0,
            msg: String::with_capacity(256),
            budget,
            exits: mode == Mode::Full && plan.exits,
            plain: solo,
        });
        if !sched::run_threads(1, 0, setup) {
            *SHMP = 5;
            simrt::sys::exit_now(0);
        }
        let (mut pre, mut post) = (vec![], vec![]);
        let full = mode == Mode::Full;
        if full {
            sched::run_threads(1, 0, dump);
            pre = std::mem::take(&mut ch().dump);
        }
        SIM.stats = Stats::default();
        SIM.switches.clear();
        if full {
            if let Some((q, n, s)) = plan.quantum {
                SIM.quantum = q;
                SIM.qleft = n;
                SIM.qrng = simrt::Rng::new(s);
            }
        }
        let live0 = (ARENA.live_blocks, ARENA.live_bytes);
        let waves = if full || mode == Mode::NoFault { plan.waves.max(1) } else { 1 };
        let mut all = true;
        for _ in 0..waves {
            all = all && sched::run_threads(nt, if full { plan.start.min(nt - 1) } else { 0 }, body);
        }
        let live1 = (ARENA.live_blocks, ARENA.live_bytes);
        SIM.quantum = 0;
        let stats = SIM.stats.clone();
        let switches = std::mem::take(&mut SIM.switches);
        let killed = stats.kills > 0;
        let mut has_post = false;
        if all && !killed && full {
            sched::run_threads(1, 0, dump);
            post = std::mem::take(&mut ch().dump);
            has_post = true;
            if !plan.finale.is_empty() {
                sched::run_threads(1, 0, finale);
            }
        }
        // serialise
        let c = ch();
        let mut w: Vec<u64> = Vec::new();
        let lists = [c.out.iter().flatten().cloned().collect::<Vec<_>>(), std::mem::take(&mut c.nested), std::mem::take(&mut c.finale)];
        for l in &lists {
            w.push(l.len() as u64);
            for o in l {
                put_call(&mut w, o);
            }
        }
        let st = [
            stats.steps, stats.switches, stats.forced, stats.futex_waits, stats.futex_wakes, stats.stalls, stats.kills,
            stats.jumps, stats.yields, stats.sleeps, stats.clock_reads, stats.machine_reads, stats.env_reads, stats.lib_threads, stats.entropy_reads, stats.cb_panics,
            stats.reentries, stats.deeper, stats.alloc_fails, stats.deadlock, stats.blocked_by_stalled, stats.sim_ns, stats.ihash,
        ];
        w.extend(st);
        w.push(switches.len() as u64);
        for s in &switches {
            w.extend([s.thread as u64, s.op as u64, s.step, s.to as u64, s.forced as u64]);
        }
        putv(&mut w, &pre);
        putv(&mut w, &post);
        w.extend([has_post as u64, live0.0 as u64, live0.1 as u64, live1.0 as u64, live1.1 as u64, PROF.shared_total, ARENA.total, ARENA.reused]);
        let mut cov = vec![];
        if PROF.on {
            let ng = sched::NGUARDS.min(sched::MAXG - 1);
            cov = vec![0u64; ng / 64 + 1];
            for g in 0..=ng {
                if PROF.covered[g] {
                    cov[g / 64] |= 1 << (g % 64);
                }
            }
        }
        putv(&mut w, &cov);
        if (w.len() + 8) * 8 > SHM {
            simrt::sys::exit_now(92);
        }
        std::ptr::copy_nonoverlapping(w.as_ptr(), SHMP.add(8), w.len());
        *SHMP.add(3) = w.len() as u64;
        *SHMP = if all { 1 } else { 3 };
    }
    simrt::sys::exit_now(0)
}

fn putv(w: &mut Vec<u64>, v: &[u64]) {
    w.push(v.len() as u64);
    w.extend_from_slice(v);
}

fn put_call(w: &mut Vec<u64>, o: &CallOut) {
    w.extend([o.thread as u64, o.call as u64, o.op as u64, o.status as u64, o.live as u64, o.live_bytes as u64, o.s0, o.s1]);
    let r = &o.rep;
    w.extend([r.steps, r.cbs, r.allocs, r.fired_cb, r.fired_al]);
    putv(w, &r.shared);
    putv(w, &r.rare);
    putv(w, &o.words);
    let m: Vec<u64> = o.msg.bytes().take(200).map(|b| b as u64).collect();
    putv(w, &m);
}

struct Rd {
    i: usize,
}
impl Rd {
    fn n(&mut self) -> u64 {
        self.i += 1;
        unsafe { *SHMP.add(self.i - 1) }
    }
    fn v(&mut self) -> Vec<u64> {
        let n = self.n() as usize;
        let r = unsafe { std::slice::from_raw_parts(SHMP.add(self.i), n).to_vec() };
        self.i += n;
        r
    }
    fn call(&mut self) -> CallOut {
        let (thread, call, op) = (self.n() as usize, self.n() as usize, self.n() as usize);
        let status = match self.n() {
            0 => Status::Ok,
            1 => Status::Injected,
            2 => Status::AllocFailed,
            _ => Status::Panic,
        };
        let (live, live_bytes, s0, s1) = (self.n() as i64, self.n() as i64, self.n(), self.n());
        let mut rep = OpReport {
            steps: self.n(),
            cbs: self.n(),
            allocs: self.n(),
            fired_cb: self.n(),
            fired_al: self.n(),
            ..Default::default()
        };
        rep.shared = self.v();
        rep.rare = self.v();
        let words = self.v();
        let msg = self.v().into_iter().map(|b| b as u8 as char).collect();
        CallOut { thread, call, op, status, words, msg, rep, live, live_bytes, s0, s1 }
    }
}

pub fn run(plan: &Plan, mode: Mode) -> RunResult {
    let mut st = 0i32;
    unsafe {
        *SHMP = 0;
        *SHMP.add(1) = 0;
        let pid = fork();
        if pid == 0 {
            DEBUG = std::env::var_os("SIM_DEBUG").is_some();
            if !DEBUG {
                dup2(DEVNULL, 2);
            }
            if mode == Mode::Full && plan.env.img != 0 && can_move() {
                elsewhere(plan);
            }
            child(plan, mode);
        }
        assert!(pid > 0, "fork failed");
        loop {
            let r = waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
        }
    }
    unsafe { MOVED += (mode == Mode::Full && plan.env.img != 0 && can_move()) as u64 }
    let (status, crumb) = unsafe { (*SHMP, *SHMP.add(1)) };
    let at = ((crumb >> 32) as usize, (crumb & 0xffff_ffff) as usize);
    let mut r = RunResult {
        end: End::Ok,
        calls: vec![],
        nested: vec![],
        finale: vec![],
        stats: Stats::default(),
        switches: vec![],
        pre: vec![],
        post: vec![],
        has_post: false,
        live0: (0, 0),
        live1: (0, 0),
        shared_total: 0,
        covered: vec![],
        allocs: (0, 0),
    };
    let sig = st & 0x7f;
    let code = (st >> 8) & 0xff;
    if sig != 0 {
        r.end = End::Signal(sig, at.0, at.1);
        return r;
    }
    if status == 2 {
        r.end = End::Hang(at.0, at.1);
        return r;
    }
    if status == 4 {
        let n = unsafe { *SHMP.add(8) } as usize;
        let m = (0..n).map(|i| unsafe { *SHMP.add(9 + i) } as u8 as char).collect();
        r.end = End::Setup(m);
        return r;
    }
    if status == 5 {
        r.end = End::Deadlock;
        return r;
    }
    if status != 1 && status != 3 {
        r.end = End::Exit(code);
        return r;
    }
    let mut d = Rd { i: 8 };
    let n = d.n();
    r.calls = (0..n).map(|_| d.call()).collect();
    let n = d.n();
    r.nested = (0..n).map(|_| d.call()).collect();
    let n = d.n();
    r.finale = (0..n).map(|_| d.call()).collect();
    let s = &mut r.stats;
    for f in [
        &mut s.steps, &mut s.switches, &mut s.forced, &mut s.futex_waits, &mut s.futex_wakes, &mut s.stalls,
        &mut s.kills, &mut s.jumps, &mut s.yields, &mut s.sleeps, &mut s.clock_reads, &mut s.machine_reads, &mut s.env_reads, &mut s.lib_threads, &mut s.entropy_reads,
        &mut s.cb_panics, &mut s.reentries, &mut s.deeper, &mut s.alloc_fails, &mut s.deadlock, &mut s.blocked_by_stalled,
        &mut s.sim_ns, &mut s.ihash,
    ] {
        *f = d.n();
    }
    let n = d.n();
    r.switches = (0..n)
        .map(|_| SwitchRec {
            thread: d.n() as usize,
            op: d.n() as usize,
            step: d.n(),
            to: d.n() as usize,
            forced: d.n() == 1,
        })
        .collect();
    r.pre = d.v();
    r.post = d.v();
    r.has_post = d.n() == 1;
    r.live0 = (d.n() as i64, d.n() as i64);
    r.live1 = (d.n() as i64, d.n() as i64);
    r.shared_total = d.n();
    r.allocs = (d.n(), d.n());
    r.covered = d.v();
    if status == 3 {
        r.end = End::Deadlock;
    }
    r
}

pub static mut DEVNULL: i32 = 2;
pub static mut DEBUG: bool = false;
/// runs with the program elsewhere in memory
pub static mut MOVED: u64 = 0;
