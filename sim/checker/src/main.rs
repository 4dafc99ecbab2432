//! Deterministic simulation of magog: seeded search for executions that break
//! a property, replay of recorded executions, and self-tests.
#![allow(static_mut_refs)]
#[global_allocator]
static A: simrt::arena::SimAlloc = simrt::arena::SimAlloc;

mod exec;
mod gen;
mod minim;
mod props;
mod report;

use exec::{End, Mode};
use plan::*;
use props::{Info, Viol};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn personality(p: u64) -> i32;
}

pub struct Tier {
    pub name: String,
    pub cases: u64,
    pub secs: u64,
}

fn tier(prop: &str) -> Tier {
    let name = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let thorough = name == "thorough";
    let quick = match prop {
        "C03" => 16_000,
        "C01" | "C02" | "C10" => 24_000,
        "C04" | "C05" | "C08" | "C09" | "C12" => 30_000,
        "C11" => 36_000,
        "C13" => 40_000,
        _ => 48_000,
    };
    Tier {
        name: if thorough { "thorough".into() } else { "quick".into() },
        cases: env_u64("SIM_CASES").unwrap_or(if thorough { quick * 40 } else { quick }),
        secs: env_u64("SIM_SECS").unwrap_or(if thorough { 780 } else { 180 }),
    }
}

fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok())
}

fn case_seed(master: u64, prop: &str, i: u64) -> u64 {
    let mut h = simrt::prng::mix(master ^ 0x5EED);
    for b in prop.bytes() {
        h = simrt::prng::mix(h ^ b as u64);
    }
    simrt::prng::mix(h ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

/// One address-space layout for every process, so that runs do not differ by it.
fn fixed_layout() {
    if std::env::var_os("SIM_NOASLR").is_some() {
        return;
    }
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur >= 0 {
            personality(cur as u64 | 0x0040000);
        }
    }
    use std::os::unix::process::CommandExt;
    let e = Command::new(std::env::current_exe().unwrap())
        .args(std::env::args_os().skip(1))
        .env("SIM_NOASLR", "1")
        .exec();
    panic!("re-exec: {}", e);
}

/// A generated case, or what happened while it was made.
fn one(prop: &str, seed: u64) -> (Plan, Result<Info, Viol>) {
    let p = props::gen(prop, seed);
    let r = props::check(&p);
    (p, r)
}

#[derive(Default)]
pub struct Tally {
    pub n: BTreeMap<String, u64>,
    pub ihash: HashSet<u64>,
    pub cases: HashSet<u64>,
    pub covered: Vec<u64>,
    pub samples: Vec<String>,
    slowest: (u64, u64),
}

impl Tally {
    fn add(&mut self, k: &str, v: u64) {
        if v > 0 {
            *self.n.entry(k.to_string()).or_default() += v;
        }
    }
    fn see(&mut self, p: &Plan, i: &Info) {
        let r = &i.full;
        let s = &r.stats;
        self.add("cases", 1);
        self.add("runs", i.runs + 1);
        self.add("calls", (r.calls.len() + r.nested.len() + r.finale.len()) as u64);
        self.add("steps", s.steps);
        self.add("sim_ns", s.sim_ns);
        let incall = r.switches.iter().filter(|x| !x.forced && x.step > 0).count() as u64;
        let f: Vec<(&str, u64)> = vec![
            ("preemption_inside_call", incall),
            ("switch_between_calls", r.switches.iter().filter(|x| !x.forced && x.step == 0).count() as u64),
            ("thread_stalled", s.stalls),
            ("thread_killed", s.kills),
            ("clock_jump", s.jumps),
            ("caller_code_panic", s.cb_panics),
            ("reentrant_call", s.reentries),
            ("reentrant_call_within_reentrant_call", s.deeper),
            ("allocation_failure", s.alloc_fails),
            ("threads_replaced_by_new_ones", p.waves as u64 - 1),
            ("call_during_thread_teardown", if p.exits { p.threads.iter().filter(|t| !t.is_empty()).count() as u64 } else { 0 }),
            ("second_number_type_in_use", p.ct2.is_some() as u64),
        ];
        let mut nontrivial = incall > 0;
        for (k, v) in &f {
            self.add(&format!("fault.{}", k), *v);
            nontrivial |= *v > 0 && !matches!(*k, "switch_between_calls" | "second_number_type_in_use");
        }
        let names: &[&str] = match p.prop.as_str() {
            "C06" => props::DAMAGE,
            "C07" | "C08" | "C13" => props::DELIVERY,
            _ => &[],
        };
        for (j, n) in p.extra.iter().enumerate() {
            if j < names.len() && names[j] != "none" {
                self.add(&format!("fault.data_{}", names[j]), *n);
                nontrivial |= *n > 0;
            }
        }
        if p.prop == "C03" {
            self.add("fault.environment_replaced", i.runs - 1);
            nontrivial = true;
        }
        if p.prop == "C09" {
            let moved = r.calls.iter().any(|c| p.ops[c.op].k == K::BuildMove)
                && (r.switches.iter().any(|x| !x.forced && x.step > 0) || matches!(p.objs[0], Obj::Moving { scripted: true, .. }));
            self.add("fault.item_moved_during_build", moved as u64);
            nontrivial |= moved;
        }
        if p.prop == "C12" {
            nontrivial |= p.calls() > 3;
        }
        self.add("obs.futex_waits", s.futex_waits);
        self.add("obs.clock_reads", s.clock_reads);
        self.add("obs.machine_reads", s.machine_reads);
        self.add("obs.environment_variable_reads", s.env_reads);
        self.add("obs.threads_started_by_the_library", s.lib_threads);
        self.add("obs.entropy_reads", s.entropy_reads);
        self.add("obs.sleeps_and_yields", s.sleeps + s.yields);
        if incall > 0 {
            self.ihash.insert(s.ihash);
        }
        if nontrivial {
            let mut q = p.clone();
            q.seed = 0;
            let mut h = 1u64;
            for b in text::write(&q).bytes() {
                h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
            }
            self.cases.insert(simrt::prng::mix(h ^ s.ihash));
        }
    }
}

/// Runs every nw-th case and prints what came of them.
fn worker(prop: &str, master: u64, w: u64, nw: u64, cases: u64, secs: u64, stop: &Path) {
    let t0 = Instant::now();
    let mut t = Tally::default();
    let mut i = w;
    let out = std::io::stdout();
    while i < cases {
        if t0.elapsed() > Duration::from_secs(secs) {
            t.add("cut_short", 1);
            break;
        }
        if let Ok(s) = std::fs::read_to_string(stop) {
            if s.trim().parse::<u64>().map_or(false, |k| k < i) {
                break;
            }
        }
        if std::env::var_os("SIM_TRACE").is_some() {
            eprintln!("case {} seed {}", i, case_seed(master, prop, i));
        }
        let seed = case_seed(master, prop, i);
        let c0 = Instant::now();
        let (p, r) = one(prop, seed);
        t.slowest = t.slowest.max((c0.elapsed().as_millis() as u64, i));
        match r {
            Ok(info) => {
                t.see(&p, &info);
                if (i / nw) % 97 == 5 {
                    // the same run once more must be the same run
                    let again = exec::run(&p, Mode::Full);
                    t.add("rechecked", 1);
                    if again.end != End::Ok || again.hash() != info.full.hash() {
                        t.add("obs.reruns_that_differed", 1);
                    }
                }
                if t.samples.len() < 2 && (w == 0 || t.samples.is_empty()) && p.calls() < 12 {
                    let s = text::write(&p);
                    if s.len() < 2500 {
                        t.samples.push(s);
                    }
                }
            }
            // another property's business: nothing could be run
            Err(v) if v.class == "setup" && !matches!(prop, "C01" | "C08" | "C09" | "C10") => {
                t.add("skipped_setup_panicked", 1)
            }
            Err(v) if v.class == "exit" && v.what.ends_with("code 92") => t.add("skipped_too_large", 1),
            // (a machine that stood still for a minute fails a case, too)
            Err(v) if (0..3).all(|_| one(prop, seed).1.is_ok()) => {
                eprintln!("case {} failed once and then not: {} {}", i, v.class, v.what);
                t.add("obs.failures_that_did_not_come_again", 1);
            }
            Err(v) => {
                let tmp = stop.with_extension(format!("{}", w));
                let _ = std::fs::write(&tmp, i.to_string());
                let _ = std::fs::rename(&tmp, stop);
                println!("V {} {}|{}", i, v.class, v.what.replace('\n', " "));
                break;
            }
        }
        i += nw;
    }
    t.add("fault.program_image_moved", unsafe { exec::MOVED });
    let mut o = out.lock();
    for (k, v) in &t.n {
        writeln!(o, "N {} {}", k, v).unwrap();
    }
    for h in &t.ihash {
        writeln!(o, "I {:x}", h).unwrap();
    }
    for h in &t.cases {
        writeln!(o, "C {:x}", h).unwrap();
    }
    for s in &t.samples {
        writeln!(o, "P {}", s.trim_end().replace('\n', "\u{1}")).unwrap();
    }
    if std::env::var_os("SIM_SLOW").is_some() {
        eprintln!("worker {}: case {} took {} ms", w, t.slowest.1, t.slowest.0);
    }
    writeln!(o, "D").unwrap();
}

pub fn root() -> PathBuf {
    std::env::var_os("SIM_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn scratch(tag: &str) -> Scratch {
    let d = std::env::temp_dir().join(format!("simrun-{}-{}", tag, std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    Scratch(d)
}

/// Runs nw workers; returns the merged tally and the violations found.
fn fan_out(prop: &str, master: u64, nw: u64, cases: u64, secs: u64) -> (Tally, Vec<(u64, String)>) {
    let dir = scratch(prop);
    let stop = dir.0.join("stop");
    let mut kids = vec![];
    for w in 0..nw {
        let f = std::fs::File::create(dir.0.join(format!("w{}", w))).unwrap();
        let c = Command::new(std::env::current_exe().unwrap())
            .args(["worker", prop])
            .args([master, w, nw, cases, secs].map(|x| x.to_string()))
            .arg(&stop)
            .stdin(Stdio::null())
            .stdout(f)
            .spawn()
            .expect("worker");
        kids.push(c);
    }
    let mut bad = None;
    for (w, k) in kids.iter_mut().enumerate() {
        let st = k.wait().expect("wait");
        if !st.success() {
            bad = Some(format!("worker {} ended with {}", w, st));
        }
    }
    if let Some(b) = bad {
        eprintln!("check error: {}", b);
        std::process::exit(2);
    }
    let mut t = Tally::default();
    let mut viols = vec![];
    for w in 0..nw {
        let s = std::fs::read_to_string(dir.0.join(format!("w{}", w))).unwrap_or_default();
        for l in s.lines() {
            let (a, b) = l.split_at(1);
            let b = b.trim_start();
            match a {
                "N" => {
                    let (k, v) = b.split_once(' ').unwrap();
                    t.add(k, v.parse().unwrap());
                }
                "I" => {
                    t.ihash.insert(u64::from_str_radix(b, 16).unwrap());
                }
                "C" => {
                    t.cases.insert(u64::from_str_radix(b, 16).unwrap());
                }
                "P" => t.samples.push(b.replace('\u{1}', "\n")),
                "V" => {
                    let (i, v) = b.split_once(' ').unwrap();
                    viols.push((i.parse().unwrap(), v.to_string()));
                }
                _ => (),
            }
        }
    }
    viols.sort();
    (t, viols)
}

pub struct Found {
    pub case: u64,
    pub viol: Viol,
    pub path: PathBuf,
}

fn record(prop: &str, master: u64, case: u64) -> Found {
    let mut tries = 0;
    let (p, v) = loop {
        let (p, r) = one(prop, case_seed(master, prop, case));
        if let Err(v) = r {
            break (p, v);
        }
        tries += 1;
        if tries == 20 {
            eprintln!("check error: case {} does not fail any more", case);
            std::process::exit(2);
        }
    };
    let m = minim::minimise(&p, &v, 45);
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.plan", prop, master, case));
    let write = |p: &Plan, v: &Viol| {
        let r = exec::run(p, Mode::Full);
        let mut s = String::new();
        s += &format!("# property {}\n# master seed {}, case {}, case seed {}\n", prop, master, case, p.seed);
        s += &format!("# class {}\n# {}\n", v.class, v.what.replace('\n', " "));
        s += "# replay: /verif/check.sh replay THIS_FILE\n";
        s += &format!(
            "# {} thread(s), {} call(s), {} planned switch(es), {} caller fault(s), {} allocation fault(s)\n",
            p.threads.len(), p.calls(), p.evs.len(), p.cbs.len(), p.als.len()
        );
        for x in r.switches.iter().take(200) {
            s += &format!(
                "# trace: thread {} call {} step {} -> thread {}{}\n",
                x.thread, x.op, x.step, x.to, if x.forced { " (had to)" } else { "" }
            );
        }
        s += &text::write(p);
        std::fs::write(&path, s).expect("replay file");
    };
    write(&m.best, &m.viol);
    // a fresh process has to see the same violation
    let again = Command::new(std::env::current_exe().unwrap())
        .arg("replay")
        .arg(&path)
        .stdout(Stdio::null())
        .status()
        .expect("replay");
    if again.code() == Some(1) {
        return Found { case, viol: m.viol, path };
    }
    write(&p, &v);
    Found { case, viol: v, path }
}

fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let p = text::read(&s);
    let want = s.lines().find_map(|l| l.strip_prefix("# class ")).unwrap_or("").to_string();
    match props::check(&p) {
        Ok(_) => {
            println!("no violation of {}", p.prop);
            0
        }
        Err(v) => {
            println!("VIOLATION property={} replay={}", p.prop, path);
            println!("{}: {}", v.class, v.what);
            if !want.is_empty() && want != v.class {
                println!("(recorded as {})", want);
            }
            1
        }
    }
}

fn known(prop: &str) -> Vec<String> {
    let s = std::fs::read_to_string(root().join("KNOWN_FINDINGS")).unwrap_or_default();
    let k = format!("finding: property={} ", prop);
    s.lines().filter_map(|l| l.strip_prefix(&k)).map(|l| l.to_string()).collect()
}

fn run(prop: &str) -> i32 {
    let t0 = Instant::now();
    let master = env_u64("VERIF_SEED").unwrap_or(1);
    let tr = tier(prop);
    let nw = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(1, 8) as u64;
    let (t, viols) = fan_out(prop, master, nw, tr.cases, tr.secs);
    let search_s = t0.elapsed().as_secs_f64();
    let found = viols.first().map(|(i, _)| record(prop, master, *i));
    report::evidence(prop, master, &tr, nw, &t, &found, search_s, t0.elapsed().as_secs_f64());
    for k in known(prop) {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    println!(
        "{}: {} cases, {} simulated runs, {} distinct non-trivial, {} distinct interleavings, {:.1} s",
        prop,
        t.n.get("cases").unwrap_or(&0),
        t.n.get("runs").unwrap_or(&0),
        t.cases.len(),
        t.ihash.len(),
        search_s
    );
    match found {
        None => 0,
        Some(f) => {
            println!("VIOLATION property={} replay={}", prop, f.path.display());
            println!("{} (seed {}, case {}): {}", f.viol.class, master, f.case, f.viol.what);
            1
        }
    }
}

/// The same seed is the same execution: in one process or several, however the
/// cases are shared out.
fn selftest() -> i32 {
    let mut bad = 0;
    for prop in props::PROPS {
        let n = env_u64("SIM_CASES").unwrap_or(60);
        let mut sums = vec![];
        for _ in 0..2 {
            let o = Command::new(std::env::current_exe().unwrap())
                .args(["hashes", prop, &n.to_string()])
                .output()
                .expect("hashes");
            sums.push(String::from_utf8_lossy(&o.stdout).into_owned());
        }
        let ok = sums[0] == sums[1] && sums[0].lines().count() as u64 == n;
        println!("{} {} cases: {}", prop, n, if ok { "identical in two processes" } else { "DIFFERENT" });
        bad += !ok as i32;
        if !ok {
            for (a, b) in sums[0].lines().zip(sums[1].lines()).filter(|(a, b)| a != b).take(3) {
                println!("  {}  |  {}", a, b);
            }
        }
    }
    (bad > 0) as i32
}

fn main() {
    fixed_layout();
    use std::os::unix::io::IntoRawFd;
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    unsafe { exec::DEVNULL = null.into_raw_fd() }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().expect("number");
    let code = match arg(0) {
        "run" => {
            exec::init();
            run(arg(1))
        }
        "worker" => {
            exec::init();
            worker(arg(1), num(2), num(3), num(4), num(5), num(6), Path::new(arg(7)));
            0
        }
        "serve" => exec::serve(num(1) as i32, num(2) as i32),
        "replay" => {
            exec::init();
            replay(arg(1))
        }
        "case" => {
            // one case, in full
            exec::init();
            let seed = case_seed(env_u64("VERIF_SEED").unwrap_or(1), arg(1), num(2));
            let (p, r) = one(arg(1), seed);
            print!("{}", text::write(&p));
            match r {
                Ok(_) => println!("# ok"),
                Err(v) => println!("# {}: {}", v.class, v.what),
            }
            0
        }
        "hashes" => {
            exec::init();
            for i in 0..num(2) {
                let (p, r) = one(arg(1), case_seed(1, arg(1), i));
                let h = r.as_ref().map(|x| x.full.hash()).unwrap_or(0);
                let l = text::write(&p).len();
                println!("{} {} {:x} {}", i, l, h, r.map_or_else(|v| v.class, |_| "ok".into()));
            }
            0
        }
        "selftest" => selftest(),
        _ => {
            eprintln!("usage: checker run PROP | replay FILE | case PROP N | selftest");
            2
        }
    };
    std::process::exit(code);
}
