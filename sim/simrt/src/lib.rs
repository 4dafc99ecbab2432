#![feature(thread_local, alloc_error_hook)]
#![allow(static_mut_refs, clippy::all)]
pub mod arena;
pub mod coord;
pub mod hooks;
pub mod prng;
pub mod sched;
pub mod sys;

pub use coord::SimCoord;
pub use prng::Rng;

/// Install the allocation-failure hook: a failed allocation unwinds.
pub fn install_alloc_hook() {
    std::alloc::set_alloc_error_hook(|l| {
        unsafe { sched::UNW_AL = true }
        sched::out(|| std::panic::panic_any(sched::AllocFailed(l.size())))
    });
}
