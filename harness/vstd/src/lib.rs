//! The standard library with its threads, locks, atomics and clock put under
//! a controlled scheduler. A crate that declares `extern crate vstd as std`
//! runs the sources under test unchanged; every atomic operation, lock
//! acquisition, sleep and spawn becomes a point at which the scheduler
//! decides who runs next. Memory is sequentially consistent here.
//! Nothing in this crate judges a result.
pub use ::std::*;
pub mod ctl;
pub mod sync;
pub mod thread;
pub mod time;
