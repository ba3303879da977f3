//! The runtime's thread scheduler and background-call pool, unchanged, with
//! small stand-ins for the interpreter around them. Green threads run on the
//! stacks the scheduler allocates; their bodies are lists of scheduler calls
//! drawn by the driver.
#![no_std]
#![feature(prelude_import)]
#![allow(dead_code, internal_features, unused_imports, non_camel_case_types)]
#[macro_use]
extern crate vstd as std;
extern crate vlibc as libc;
#[prelude_import]
use std::prelude::rust_2024::*;

pub mod shim;
pub use shim::*;
pub mod value {
    pub mod rvalue {
        pub use crate::shim::*;
        pub use crate::alloc;
        #[path = "/repo/monoruby/src/value/rvalue/thread.rs"]
        mod thread;
        pub(crate) use thread::{InterruptTiming, PendingInterrupt, ThreadState};
        pub use thread::ThreadInner;
    }
}
#[path = "/repo/monoruby/src/scheduler.rs"]
pub(crate) mod scheduler;
#[path = "/repo/monoruby/src/native_pool.rs"]
pub(crate) mod native_pool;
pub mod alloc {
    pub struct Allocator<T>(std::marker::PhantomData<T>);
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
}
pub mod preempt {
    pub(crate) fn on_thread_count(live: usize) {
        crate::shim::LIVE.with(|l| l.set(live));
    }
}
pub mod codegen {
    pub mod signal_table {
        pub(crate) static PENDING_SIGNALS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    }
}
pub mod executor {
    pub use crate::shim::{Executor, Result};
    pub(crate) extern "C" fn execute_gc(_: &mut crate::Executor, _: &mut crate::Globals) -> Option<crate::Value> {
        Some(crate::Value::nil())
    }
}
pub mod globals {
    pub use crate::shim::Globals;
}
pub mod builtins {
    pub mod fiddle {
        /// a background call: waits for its turn, then has a result of its own
        pub struct FfiWorkerCall(pub i64);
        impl FfiWorkerCall {
            pub fn run(&self) -> i64 {
                crate::driver::background(self.0)
            }
        }
    }
}
pub mod driver;
