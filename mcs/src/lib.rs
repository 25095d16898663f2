//! The explorer for concurrent cases: never instrumented itself, so that it can serve as the
//! runtime of the instrumented crates.
#[path = "../../mc/src/alloc.rs"]
pub mod alloc;
#[path = "../../mc/src/explore.rs"]
pub mod explore;
pub mod sched;
pub mod tsan;

pub mod reps {
    //! what the explorer asks of the harness before and after a case
    pub static mut RESET: fn() = || {};
    pub static mut ERROR: fn(bool) -> Option<String> = |_| None;
    pub fn reset_owners() {
        unsafe { RESET() }
    }
    pub fn owners_error(leaks: bool) -> Option<String> {
        unsafe { ERROR(leaks) }
    }
}
