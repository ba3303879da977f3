//! Feeds straight-line programs to the runtime's register allocator and
//! records the actions it emits; drives its register file with random
//! histories and records the answers.
#![allow(dead_code)]
pub mod bytecodegen {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum BinOpK {
        Add,
        Sub,
        Mul,
        Div,
        BitOr,
        BitAnd,
        BitXor,
        Rem,
        Exp,
    }
}
pub mod codegen {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum GP {
        Rax,
        Rcx,
        Rdx,
        Rsi,
        Rdi,
        R8,
        R9,
        R10,
        R11,
        R13,
        R15,
    }
    pub mod jitgen {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct SlotId(pub u16);
        impl SlotId {
            pub fn new(x: u16) -> Self {
                SlotId(x)
            }
        }
        #[path = "/repo/monoruby/src/codegen/jitgen/gp_alloc.rs"]
        pub mod gp_alloc;
        pub mod drive;
    }
}
pub use codegen::jitgen;

fn main() {
    codegen::jitgen::drive::main()
}
