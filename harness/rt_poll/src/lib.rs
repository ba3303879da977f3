//! The poll word, the preemption timer and the signal table of the runtime,
//! run under the controlled scheduler of vstd.
#![no_std]
#![feature(prelude_import)]
#![allow(dead_code, internal_features)]
#[macro_use]
extern crate vstd as std;
#[prelude_import]
#[allow(unused_imports)]
use std::prelude::rust_2024::*;

#[path = "/repo/monoruby/src/poll_flag.rs"]
pub mod poll_flag;
#[path = "/repo/monoruby/src/preempt.rs"]
pub mod preempt;
pub mod codegen {
    #[path = "/repo/monoruby/src/codegen/signal_table.rs"]
    pub mod signal_table;
}
/// The error a signal turns into: class and message.
#[derive(Debug, Clone, PartialEq)]
pub struct MonorubyErr(pub i64, pub String);
impl MonorubyErr {
    pub fn interrupt(m: impl Into<String>) -> Self {
        MonorubyErr(1, m.into())
    }
    pub fn signalexception(m: impl Into<String>) -> Self {
        MonorubyErr(2, m.into())
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Value(pub u64);
pub mod driver;
