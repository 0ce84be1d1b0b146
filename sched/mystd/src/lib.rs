//! The standard library as the instrumented copies of the crates see it: everything is std,
//! except that the synchronisation primitives of `std::sync` are scheduling points of the
//! controlled scheduler in `sched`.  Threads the scheduler does not know pass straight through.
#![allow(deprecated)]
pub use ::std::*;
#[doc(hidden)]
pub use sched::point;
pub mod sched;
pub mod sync;
pub mod hint {
    pub use ::std::hint::*;
    /// A spinning thread gives way.
    pub fn spin_loop() {
        crate::sched::yield_point()
    }
}
pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        crate::sched::yield_point()
    }
    /// Time is not modelled: sleeping gives way.
    pub fn sleep(_: ::std::time::Duration) {
        crate::sched::yield_point()
    }
}
