//! What the class table, the method resolution and the module type need of
//! the rest of the runtime. Nothing here decides anything that is checked:
//! objects are boxes with a class and a type, functions are numbered records.
use super::*;

pub mod indexmap {
    //! An insertion-ordered map with the operations the runtime uses.
    #[derive(Debug, Clone)]
    pub struct IndexMap<K, V, S = ()> {
        v: Vec<(K, V)>,
        s: std::marker::PhantomData<fn() -> S>,
    }
    impl<K, V, S> Default for IndexMap<K, V, S> {
        fn default() -> Self {
            Self { v: vec![], s: std::marker::PhantomData }
        }
    }
    impl<K: PartialEq, V, S> IndexMap<K, V, S> {
        pub fn get(&self, k: &K) -> Option<&V> {
            self.v.iter().find(|e| e.0 == *k).map(|e| &e.1)
        }
        pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
            self.v.iter_mut().find(|e| e.0 == *k).map(|e| &mut e.1)
        }
        pub fn contains_key(&self, k: &K) -> bool {
            self.get(k).is_some()
        }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.get_mut(&k) {
                Some(x) => Some(std::mem::replace(x, v)),
                None => {
                    self.v.push((k, v));
                    None
                }
            }
        }
        pub fn shift_remove(&mut self, k: &K) -> Option<V> {
            let i = self.v.iter().position(|e| e.0 == *k)?;
            Some(self.v.remove(i).1)
        }
        pub fn swap_remove(&mut self, k: &K) -> Option<V> {
            let i = self.v.iter().position(|e| e.0 == *k)?;
            Some(self.v.swap_remove(i).1)
        }
        pub fn len(&self) -> usize {
            self.v.len()
        }
        pub fn is_empty(&self) -> bool {
            self.v.is_empty()
        }
        pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
            self.v.iter().map(|e| (&e.0, &e.1))
        }
        pub fn keys(&self) -> impl Iterator<Item = &K> {
            self.v.iter().map(|e| &e.0)
        }
        pub fn values(&self) -> impl Iterator<Item = &V> {
            self.v.iter().map(|e| &e.1)
        }
    }
}
pub mod fxhash {
    pub type FxBuildHasher = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, fxhash::FxBuildHasher>;
pub type HashSet<K> = std::collections::HashSet<K, fxhash::FxBuildHasher>;

pub mod alloc {
    pub struct Allocator<T>(std::marker::PhantomData<T>);
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
}
pub use alloc::{Allocator, GC};

pub mod monoasm {
    #[derive(Debug, Clone, PartialEq)]
    pub struct DestLabel(pub usize);
    pub struct CodePtr(pub usize);
    impl CodePtr {
        pub fn as_ptr(&self) -> *mut u8 {
            self.0 as _
        }
    }
}
pub use monoasm::DestLabel;

pub mod ast {
    #[derive(Clone, Copy, PartialEq)]
    pub enum CmpKind {
        Eq,
        Ne,
        Lt,
        Le,
        Gt,
        Ge,
        TEq,
    }
    #[derive(Debug, Clone, Copy, Default, PartialEq)]
    pub struct Loc(pub usize, pub usize);
    #[derive(Debug, Clone)]
    pub struct Node;
    #[derive(Debug, Clone)]
    pub struct LvarCollector;
    impl LvarCollector {
        pub fn new() -> Self {
            Self
        }
    }
    pub enum DestructEntry {
        Param(String, Loc),
        Rest(Option<String>, Loc),
        Nested(Vec<DestructEntry>, Loc),
    }
    pub enum ParamKind {
        Param(String),
        ItParam,
        Destruct(Vec<DestructEntry>),
        PostDestruct(Vec<DestructEntry>),
        Optional(String, Box<Node>),
        Rest(Option<String>),
        ImplicitRest,
        Post(Option<String>),
        Forwarding,
        Keyword(String, Option<Box<Node>>),
        KWRest(Option<String>),
        Block(Option<String>),
    }
    pub struct FormalParam {
        pub kind: ParamKind,
    }
    pub struct BlockInfo {
        pub params: Vec<FormalParam>,
        pub body: Box<Node>,
        pub lvar: LvarCollector,
        pub loc: Loc,
        pub is_lambda: bool,
    }
    #[derive(Debug)]
    pub struct SourceInfo {
        pub path: std::path::PathBuf,
    }
    impl SourceInfo {
        pub fn get_line(&self, _: &Loc) -> usize {
            0
        }
        pub fn file_name(&self) -> std::borrow::Cow<'_, str> {
            self.path.to_string_lossy()
        }
    }
    pub type SourceInfoRef = std::rc::Rc<SourceInfo>;
    pub struct ParseResult {
        pub node: Node,
        pub source_info: SourceInfoRef,
    }
}
pub use ast::*;

pub mod bytecodegen {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum BinOpK {
        Add,
        Sub,
        Mul,
        Div,
        BitOr,
        BitAnd,
        BitXor,
        Rem,
        Exp,
        Shl,
        Shr,
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum UnOpK {
        Pos,
        Neg,
        BitNot,
        Not,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct BcIndex(pub u32);
    impl BcIndex {
        pub fn to_usize(&self) -> usize {
            self.0 as usize
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct BcLocal(pub u16);
    pub struct DestructureInfo;
    impl DestructureInfo {
        pub fn new(_: usize, _: usize, _: usize, _: Option<usize>) -> Self {
            Self
        }
    }
    pub struct ForParamInfo;
    impl ForParamInfo {
        pub fn new(_: usize, _: BcLocal, _: usize) -> Self {
            Self
        }
    }
    pub struct OptionalInfo;
    impl OptionalInfo {
        pub fn new(_: BcLocal, _: Node) -> Self {
            Self
        }
    }
    pub struct CompileInfo {
        pub params: ParamsInfo,
    }
    impl CompileInfo {
        pub fn new(
            _: Node,
            params: ParamsInfo,
            _: Vec<Option<Box<Node>>>,
            _: Vec<DestructureInfo>,
            _: Vec<OptionalInfo>,
            _: Vec<ForParamInfo>,
            _: Loc,
        ) -> Self {
            Self { params }
        }
    }
}
pub use bytecodegen::BcIndex;
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct SlotId(pub u16);
impl SlotId {
    pub fn is_self(&self) -> bool {
        self.0 == 0
    }
}
impl std::ops::Add<usize> for SlotId {
    type Output = Self;
    fn add(self, rhs: usize) -> Self {
        Self(self.0 + rhs as u16)
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct BytecodePtr(pub usize);
#[derive(Debug, Clone, Copy)]
pub struct Lfp(pub FuncId, pub Value);
impl Lfp {
    pub fn func_id(&self) -> FuncId {
        self.0
    }
    pub fn method_func_id(&self) -> FuncId {
        self.0
    }
    pub fn self_val(&self) -> Value {
        self.1
    }
    pub fn register(&self, _: SlotId) -> Option<Value> {
        None
    }
}
pub struct Cfp(pub Lfp);
impl Cfp {
    pub fn lfp(&self) -> Lfp {
        self.0
    }
}
pub struct BlockHandler(pub Value);
impl BlockHandler {
    pub fn new(v: Value) -> Self {
        Self(v)
    }
    pub fn from_caller(_: FuncId) -> Self {
        Self(Value::nil())
    }
}
pub mod inline {
    #[derive(Default)]
    pub struct InlineTable;
}
pub type BuiltinFn = fn();
#[derive(Debug, Clone, Copy)]
pub struct Effect;
#[derive(Debug, Clone, Copy)]
pub struct Proc(pub FuncId);
impl Proc {
    pub fn func_id(&self) -> FuncId {
        self.0
    }
}
#[derive(Debug, Clone, Default)]
pub struct ParamsInfo;
impl ParamsInfo {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        _: usize,
        _: usize,
        _: Option<usize>,
        _: bool,
        _: usize,
        _: Vec<Option<IdentId>>,
        _: Vec<IdentId>,
        _: Vec<bool>,
        _: Option<SlotId>,
        _: Option<IdentId>,
        _: bool,
        _: bool,
        _: bool,
    ) -> Self {
        Self
    }
}

#[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
pub enum Visibility {
    Public = 0,
    Protected = 1,
    Private = 2,
    Undefined = 3,
}

#[derive(Debug, Clone, PartialEq)]
pub enum MonorubyErrKind {
    Name(Option<IdentId>),
    Other(&'static str),
}
/// The error text is not recorded: only that an error was raised, and which.
#[derive(Debug, Clone, PartialEq)]
pub struct MonorubyErr {
    pub kind: MonorubyErrKind,
    pub message: String,
}
fn raised(kind: &'static str, message: String) -> MonorubyErr {
    let kind = if kind == "NameError" { MonorubyErrKind::Name(None) } else { MonorubyErrKind::Other(kind) };
    MonorubyErr { kind, message }
}
impl MonorubyErr {
    pub fn uninitialized_constant_in(name: IdentId, _: Value) -> Self {
        raised("NameError", name.to_string())
    }
    pub fn nameerr_with_name_receiver(message: impl ToString, _: IdentId, _: Value) -> Self {
        raised("NameError", message.to_string())
    }
    pub fn argumenterr(m: impl ToString) -> Self {
        raised("ArgumentError", m.to_string())
    }
    pub fn frozenerr(m: impl ToString) -> Self {
        raised("FrozenError", m.to_string())
    }
    pub fn typeerr(m: impl ToString) -> Self {
        raised("TypeError", m.to_string())
    }
    pub fn nameerr(m: impl ToString) -> Self {
        raised("NameError", m.to_string())
    }
    pub fn runtimeerr(m: impl ToString) -> Self {
        raised("RuntimeError", m.to_string())
    }
    pub fn method_not_found(_: &Store, name: IdentId, _: Value) -> Self {
        raised("NoMethodError", name.to_string())
    }
    pub fn method_not_found_for_class(_: &Store, name: IdentId, _: ClassId) -> Self {
        raised("NameError", name.to_string())
    }
    pub fn uninitialized_cvar(name: IdentId, _: String, _: Value) -> Self {
        raised("NameError", name.to_string())
    }
}
pub type Result<T> = std::result::Result<T, MonorubyErr>;

/// The part of the code generator the class table talks to: the version
/// counters, and a record of what was reported as redefined.
pub struct Jit;
impl Jit {
    pub fn get_label_address(&self, _: &DestLabel) -> monoasm::CodePtr {
        monoasm::CodePtr(0)
    }
    pub fn apply_jmp_patch_address(&mut self, _: monoasm::CodePtr, _: &DestLabel) {}
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct VmBop(pub IdentId);
impl VmBop {
    pub fn from_ident(name: IdentId) -> Option<Self> {
        Some(Self(name))
    }
}
pub struct Codegen {
    pub class_version: u32,
    pub const_version: u64,
    pub bops: usize,
    pub jit: Jit,
}
impl Codegen {
    pub fn class_version(&self) -> u32 {
        self.class_version
    }
    pub fn class_version_inc(&mut self) {
        self.class_version += 1;
    }
    pub fn const_version(&self) -> u64 {
        self.const_version
    }
    pub fn const_version_inc(&mut self) {
        self.const_version += 1;
    }
    pub fn set_class_version(&mut self, _: u32, _: &DestLabel) {}
    pub fn set_bop_redefine(&mut self, _: Option<VmBop>) {
        self.bops += 1;
    }
    pub fn vm_entry(&self) -> DestLabel {
        monoasm::DestLabel(0)
    }
}
thread_local! {
    pub static CODEGEN: std::cell::RefCell<Codegen> =
        const { std::cell::RefCell::new(Codegen { class_version: 1, const_version: 1, bops: 0, jit: Jit }) };
}
