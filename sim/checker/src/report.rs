//! The evidence file of a check.
use crate::{root, Found, Tally, Tier};
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}

fn strs(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

fn rule(prop: &str) -> String {
    let how = match prop {
        "C01" => "random boxes, indexes, queries and joins dealt to 2-8 simulated threads (some cases: several generations of threads, calls during thread teardown, two number types at a time) with seeded preemption; answers against brute force",
        "C02" => "random geometries shared by 2-8 simulated threads (some cases: several generations of threads, calls during thread teardown, two number types at a time) making random calls with seeded preemption; each answer against the same call alone in a fresh process",
        "C03" => "the same calls under another process, thread distribution, order, hash seed, heap layout, memory fill, program image address, environment variables, processor count and clock",
        "C04" => "panics thrown from seeded callbacks (arithmetic, comparisons, bounding-box callbacks, iterators) at seeded points of calls on 1-3 threads",
        "C05" => "seeded allocation failures (single, bursts, permanent) inside calls on 1-3 threads",
        "C06" => "rendered texts damaged by truncation, torn writes, bit flips, lost, duplicated, swapped and zeroed blocks; answers against a reference reader",
        "C07" => "boxes aggregated by 1-4 workers under reordering, duplication, loss with resending, checkpoints and crash-restart; every intermediate result against a model",
        "C08" => "items routed to 1-4 shards under reordering, duplication and loss with resending; index answers of every shard against brute force",
        "C09" => "items that move while an index over them is built (moved by other threads at seeded steps, or scripted per question)",
        "C10" => "threads stalled or killed at seeded steps; everyone else has to finish in a bounded number of steps, without panicking",
        "C11" => "calls made again from inside callbacks of other calls at seeded points",
        "C12" => "long series of calls over fresh and shared objects; memory held after the whole series against memory held after half of it",
        "C13" => "collections assembled from the same parts in different orders, with and without repeated parts",
        _ => "",
    };
    format!(
        "Case i of master seed s is generated from mix(s, property, i): {}. A case is non-trivial if at least one preemption inside a call or one injected fault actually took effect in its main run (C03: every case is re-run in replaced environments; C12: more than three calls). Distinct: hash of the plan without its seed, together with the schedule actually executed.",
        how
    )
}

#[allow(clippy::too_many_arguments)]
pub fn evidence(prop: &str, seed: u64, t: &Tier, nw: u64, y: &Tally, f: &Option<Found>, search_s: f64, wall_s: f64) {
    let n = |k: &str| y.n.get(k).copied().unwrap_or(0);
    let per_h = |k: u64| (k as f64 / search_s.max(0.001) * 3600.0) as u64;
    let mut faults = String::new();
    for (k, v) in &y.n {
        if let Some(k) = k.strip_prefix("fault.") {
            if !faults.is_empty() {
                faults += ", ";
            }
            write!(faults, "{}: {}", js(k), v).unwrap();
        }
    }
    let mut obs = String::new();
    for (k, v) in &y.n {
        if let Some(k) = k.strip_prefix("obs.") {
            if !obs.is_empty() {
                obs += ", ";
            }
            write!(obs, "{}: {}", js(k), v).unwrap();
        }
    }
    let samples: Vec<&str> = y.samples.iter().take(4).map(|s| s.as_str()).collect();
    let real = [
        "the whole magog crate from /repo's working tree, instrumented with LLVM sanitizer coverage",
        "its dependency wkt (instrumented), num-traits, ordered-float, itertools and std, as built by cargo",
        "OS threads (one released at a time), panics and unwinding, thread-local destructors, TLS",
    ];
    let stub = [
        "thread scheduling: seeded scheduler, scheduling point at every basic block, load, store, allocation and callback of library code",
        "heap: deterministic arena with seeded base, reuse policy and fill",
        "clock, sleep, futex and entropy system calls, environment variables, processor count and process number of library code: simulated; threads it starts become simulated threads",
        "coordinate numbers (in part): a caller-defined number type that counts and can fault arithmetic, comparisons and conversions",
        "bounding-box providers and iterators: caller-side test doubles",
    ];
    let assumptions = [
        "memory accesses are interleaved at instrumented basic blocks, loads and stores, sequentially consistent; weak-memory reorderings are not simulated",
        "code of std that is not generic (not instantiated in instrumented crates) runs without scheduling points inside",
        "a seeded search samples schedules, inputs and faults; it does not exhaust them",
    ];
    let viol = match f {
        None => "null".to_string(),
        Some(f) => format!(
            "{{\"case\": {}, \"class\": {}, \"what\": {}, \"replay\": {}}}",
            f.case, js(&f.viol.class), js(&f.viol.what), js(&f.path.display().to_string())
        ),
    };
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"planned_cases\": {},\n  \"cut_short_by_time\": {},\n  \"cases_skipped_result_too_large\": {},\n  \"cases_skipped_objects_unbuildable\": {},\n  \"simulated_runs\": {},\n  \"simulated_runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"library_calls\": {},\n  \"simulated_steps\": {},\n  \"simulated_time\": {{\"scheduler_steps\": {}, \"virtual_clock_ns\": {}, \"note\": \"library code never reads the clock on this tree; time is counted in scheduling points\"}},\n  \"faults_injected\": {{{}}},\n  \"library_use_of_the_environment\": {{{}}},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"hash of the sequence (thread, call, step, next thread) of all context switches of a run with at least one preemption inside a call\",\n  \"determinism_rechecks\": {},\n  \"determinism_differences\": {},\n  \"workers\": {},\n  \"instrumented_blocks\": {},\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"violation\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(prop), js(&t.name), seed, n("cases"), y.cases.len(), js(&rule(prop)), strs(&samples), t.cases,
        n("cut_short") > 0, n("skipped_too_large"), n("skipped_setup_panicked"), n("runs"), per_h(n("runs")), per_h(n("cases")), n("calls"), n("steps"),
        n("steps"), n("sim_ns"), faults, obs, y.ihash.len(), n("rechecked"), n("obs.reruns_that_differed"), nw, unsafe { simrt::sched::NGUARDS },
        strs(&real), strs(&stub), viol, strs(&assumptions), wall_s, f.is_some() as u32
    );
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", prop)), s).expect("evidence");
}
