//! Stand-ins for what surrounds value/rvalue/string.rs: objects, a two
//! generation collector that relies on the write barrier, errors, big
//! integers.
pub use crate::rvalue::string::{Encoding, RString, RStringInner};
pub use monoruby_attr::monoruby_object;
pub use std::mem::ManuallyDrop;
use std::cell::RefCell;

/// Small, so that short strings are shared.
pub const STRING_INLINE_CAP: usize = 6;
pub const RVALUE_OFFSET_KIND: usize = 16;

#[derive(Debug, Clone, PartialEq)]
pub enum MonorubyErr {
    Arg(String),
    Range(String),
    Type(String),
    Runtime(String),
    Incompatible,
}
pub type Result<T> = std::result::Result<T, MonorubyErr>;
impl MonorubyErr {
    pub fn argumenterr(s: impl ToString) -> Self {
        Self::Arg(s.to_string())
    }
    pub fn rangeerr(s: impl ToString) -> Self {
        Self::Range(s.to_string())
    }
    pub fn typeerr(s: impl ToString) -> Self {
        Self::Type(s.to_string())
    }
    pub fn runtimeerr(s: impl ToString) -> Self {
        Self::Runtime(s.to_string())
    }
    pub fn incompatible_encoding(_: &Store, _: Encoding, _: Encoding) -> Self {
        Self::Incompatible
    }
    pub fn cant_convert_into_float(_: &Globals, _: Value) -> Self {
        Self::Type("float".into())
    }
    pub fn cant_convert_error_f(_: &Globals, _: Value, _: Value) -> Self {
        Self::Type("float".into())
    }
}

pub struct Store;
pub struct Globals {
    pub store: Store,
}
pub struct Executor;
#[derive(Clone, Copy)]
pub struct FuncId;
#[derive(Clone, Copy)]
pub struct IdentId;
impl IdentId {
    pub const TO_F: IdentId = IdentId;
    pub const TO_S: IdentId = IdentId;
}
impl Globals {
    pub fn check_method(&self, _: Value, _: IdentId) -> Option<FuncId> {
        None
    }
}
impl Executor {
    pub fn invoke_func_inner(
        &mut self, _: &mut Globals, _: FuncId, _: Value, _: &[Value], _: Option<()>, _: Option<()>,
    ) -> Result<Value> {
        Err(MonorubyErr::Type("no method".into()))
    }
    pub fn invoke_method_inner(
        &mut self, _: &mut Globals, _: IdentId, _: Value, _: &[Value], _: Option<()>, _: Option<()>,
    ) -> Result<Value> {
        Err(MonorubyErr::Type("no method".into()))
    }
}

pub mod num {
    /// Up to 128 bits of magnitude.
    #[derive(Debug, Clone, PartialEq)]
    pub struct BigInt {
        pub neg: bool,
        pub mag: u128,
    }
    pub trait Signed {
        fn is_negative(&self) -> bool;
    }
    pub trait Zero {
        fn is_zero(&self) -> bool;
    }
    pub trait ToPrimitive {
        fn to_u8(&self) -> Option<u8>;
        fn to_u64(&self) -> Option<u64>;
        fn to_i64(&self) -> Option<i64>;
    }
    impl Signed for BigInt {
        fn is_negative(&self) -> bool {
            self.neg
        }
    }
    impl Zero for BigInt {
        fn is_zero(&self) -> bool {
            self.mag == 0
        }
    }
    impl ToPrimitive for BigInt {
        fn to_u8(&self) -> Option<u8> {
            (!self.neg).then(|| u8::try_from(self.mag).ok())?
        }
        fn to_u64(&self) -> Option<u64> {
            (!self.neg).then(|| u64::try_from(self.mag).ok())?
        }
        fn to_i64(&self) -> Option<i64> {
            let m = i128::try_from(self.mag).ok()?;
            i64::try_from(if self.neg { -m } else { m }).ok()
        }
    }
    impl BigInt {
        pub fn to_f64(&self) -> Option<f64> {
            let f = self.mag as f64;
            Some(if self.neg { -f } else { f })
        }
    }
    macro_rules! from {
        ($($t:ty),*) => {$(
            impl From<$t> for BigInt {
                fn from(n: $t) -> Self {
                    BigInt { neg: false, mag: n as u128 }
                }
            }
        )*};
    }
    from!(u8, u16, u32, u64, u128, usize);
    macro_rules! from_signed {
        ($($t:ty),*) => {$(
            impl From<$t> for BigInt {
                fn from(n: $t) -> Self {
                    BigInt { neg: n < 0, mag: (n as i128).unsigned_abs() }
                }
            }
        )*};
    }
    from_signed!(i32, i64, i128);
    impl std::ops::BitAnd<&BigInt> for &BigInt {
        type Output = BigInt;
        fn bitand(self, o: &BigInt) -> BigInt {
            BigInt { neg: false, mag: self.mag & o.mag }
        }
    }
    impl std::ops::ShrAssign<u32> for BigInt {
        fn shr_assign(&mut self, n: u32) {
            self.mag = self.mag.checked_shr(n).unwrap_or(0);
        }
    }
    fn shl(m: u128, n: u32) -> u128 {
        assert!(n <= m.leading_zeros(), "stand-in for big integers: more than 128 bits");
        m << n
    }
    macro_rules! shifts {
        ($($t:ty),*) => {$(
            impl std::ops::ShlAssign<$t> for BigInt {
                fn shl_assign(&mut self, n: $t) {
                    self.mag = shl(self.mag, n as u32);
                }
            }
            impl std::ops::Shl<$t> for BigInt {
                type Output = BigInt;
                fn shl(self, n: $t) -> BigInt {
                    BigInt { neg: self.neg, mag: shl(self.mag, n as u32) }
                }
            }
        )*};
    }
    shifts!(u32, i32, usize, u64, u8);
    macro_rules! ors {
        ($($t:ty),*) => {$(
            impl std::ops::BitOrAssign<$t> for BigInt {
                fn bitor_assign(&mut self, n: $t) {
                    self.mag |= BigInt::from(n).mag;
                }
            }
            impl std::ops::BitOr<$t> for BigInt {
                type Output = BigInt;
                fn bitor(self, n: $t) -> BigInt {
                    BigInt { neg: self.neg, mag: self.mag | BigInt::from(n).mag }
                }
            }
            impl std::ops::AddAssign<$t> for BigInt {
                fn add_assign(&mut self, n: $t) {
                    self.mag += BigInt::from(n).mag;
                }
            }
            impl std::ops::Add<$t> for BigInt {
                type Output = BigInt;
                fn add(self, n: $t) -> BigInt {
                    BigInt { neg: self.neg, mag: self.mag + BigInt::from(n).mag }
                }
            }
        )*};
    }
    ors!(u8, u32, u64, u128, BigInt);
}
pub use num::BigInt;

pub mod encoding_rs {
    pub struct Encoding;
    impl Encoding {
        pub fn for_label(_: &[u8]) -> Option<Encoding> {
            None
        }
        pub fn decode_without_bom_handling<'a>(&self, _: &'a [u8]) -> (std::borrow::Cow<'a, str>, bool) {
            unreachable!()
        }
    }
}

pub enum Kind {
    Int(i64),
    Big(BigInt),
    Float(f64),
    Str(RStringInner),
    Array(Vec<Value>),
    Dead,
}
pub struct Obj {
    pub kind: Kind,
    pub frozen: bool,
    old: bool,
    remembered: bool,
    marked: bool,
}
#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(transparent)]
pub struct Value(*mut Obj);
impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{:p}", self.0)
    }
}
pub enum RV<'a> {
    Nil,
    Fixnum(i64),
    BigInt(&'a BigInt),
    Float(f64),
    String(&'a RStringInner),
    Other,
}

#[derive(Default)]
pub struct Heap {
    objs: Vec<Value>,
    pub roots: Vec<Option<Value>>,
    /// collect the young generation before every allocation
    pub stress: bool,
}
thread_local! {
    pub static HEAP: RefCell<Heap> = RefCell::new(Heap::default());
}
pub fn collect(full: bool) {
    HEAP.with(|h| {
        let mut h = h.borrow_mut();
        let mut todo: Vec<Value> = h.roots.iter().flatten().copied().collect();
        if !full {
            for o in &h.objs {
                if o.get().remembered {
                    todo.extend(o.get().kind.children());
                }
            }
        }
        while let Some(v) = todo.pop() {
            let o = v.get();
            assert!(!matches!(o.kind, Kind::Dead), "collector reached a dead object");
            // a minor collection does not look into old objects
            if o.marked || (!full && o.old) {
                continue;
            }
            o.marked = true;
            todo.extend(o.kind.children());
        }
        h.objs.retain(|v| {
            let o = v.get();
            let live = o.marked || (!full && o.old);
            o.remembered = false;
            o.marked = false;
            if live {
                o.old = true;
            } else {
                o.kind = Kind::Dead;
            }
            live
        });
    })
}
pub fn reset(slots: usize) {
    HEAP.with(|h| {
        let mut h = h.borrow_mut();
        for v in std::mem::take(&mut h.objs) {
            v.get().kind = Kind::Dead;
        }
        h.roots = vec![None; slots];
        h.stress = false;
    })
}
impl Kind {
    fn children(&self) -> Vec<Value> {
        match self {
            Kind::Str(s) => s.shared_root().into_iter().collect(),
            Kind::Array(a) => a.clone(),
            _ => vec![],
        }
    }
}
impl Value {
    fn get(&self) -> &'static mut Obj {
        unsafe { &mut *self.0 }
    }
    fn alloc(kind: Kind) -> Self {
        if HEAP.with(|h| h.borrow().stress) {
            collect(false);
        }
        let v = Value(Box::into_raw(Box::new(Obj {
            kind,
            frozen: false,
            old: false,
            remembered: false,
            marked: false,
        })));
        HEAP.with(|h| h.borrow_mut().objs.push(v));
        v
    }
    pub fn nil() -> Self {
        Value(std::ptr::null_mut())
    }
    pub fn id(&self) -> u64 {
        self.0 as u64
    }
    pub fn is_nil(&self) -> bool {
        self.0.is_null()
    }
    pub fn is_packed_value(&self) -> bool {
        self.is_nil() || matches!(self.get().kind, Kind::Int(_))
    }
    pub fn integer(n: i64) -> Self {
        Self::alloc(Kind::Int(n))
    }
    pub fn integer_from_u64(n: u64) -> Self {
        match i64::try_from(n) {
            Ok(n) => Self::integer(n),
            Err(_) => Self::bigint(BigInt::from(n)),
        }
    }
    pub fn bigint(b: BigInt) -> Self {
        use num::ToPrimitive;
        match b.to_i64() {
            Some(n) => Self::integer(n),
            None => Self::alloc(Kind::Big(b)),
        }
    }
    pub fn float(f: f64) -> Self {
        Self::alloc(Kind::Float(f))
    }
    pub fn string_from_inner(s: RStringInner) -> Self {
        Self::alloc(Kind::Str(s))
    }
    pub fn bytes(b: Vec<u8>) -> Self {
        Self::string_from_inner(RStringInner::bytes_from_vec(b))
    }
    pub fn array_from_vec(v: Vec<Value>) -> Self {
        Self::alloc(Kind::Array(v))
    }
    pub fn unpack(&self) -> RV<'static> {
        if self.is_nil() {
            return RV::Nil;
        }
        match &self.get().kind {
            Kind::Int(n) => RV::Fixnum(*n),
            Kind::Big(b) => RV::BigInt(b),
            Kind::Float(f) => RV::Float(*f),
            Kind::Str(s) => RV::String(s),
            _ => RV::Other,
        }
    }
    pub fn as_array(&self) -> &'static [Value] {
        match &self.get().kind {
            Kind::Array(a) => a,
            _ => panic!("not an array"),
        }
    }
    pub fn is_rstring_inner(&self) -> Option<&'static RStringInner> {
        if self.is_nil() {
            return None;
        }
        match &self.get().kind {
            Kind::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_str(&self) -> Option<&'static str> {
        self.is_rstring_inner().and_then(|s| std::str::from_utf8(s.as_bytes()).ok())
    }
    pub fn as_rstring_inner(&self) -> &'static RStringInner {
        self.is_rstring_inner().expect("not a live string")
    }
    pub fn as_rstring_inner_mut(&mut self) -> &'static mut RStringInner {
        match &mut self.get().kind {
            Kind::Str(s) => s,
            _ => panic!("not a live string"),
        }
    }
    pub fn is_frozen(&self) -> bool {
        self.get().frozen
    }
    pub fn set_frozen(&mut self) {
        self.get().frozen = true;
    }
    pub fn ensure_not_frozen(&self, _: &Store) -> Result<()> {
        if self.is_frozen() { Err(MonorubyErr::Runtime("frozen".into())) } else { Ok(()) }
    }
    pub fn get_real_class_name(&self, _: &Store) -> String {
        "Object".into()
    }
    pub fn write_barrier(&mut self, child: Value) {
        if self.get().old && !child.is_packed_value() {
            self.get().remembered = true;
        }
    }
    pub fn write_barrier_bulk(&mut self) {
        if self.get().old {
            self.get().remembered = true;
        }
    }
    pub fn coerce_to_pack_u64(&self, _: &mut Executor, _: &mut Globals) -> Result<u64> {
        match self.unpack() {
            RV::Fixnum(n) => Ok(n as u64),
            RV::Float(f) => Ok(f as i64 as u64),
            RV::BigInt(b) => Ok(if b.neg { (b.mag as u64).wrapping_neg() } else { b.mag as u64 }),
            _ => Err(MonorubyErr::Type("int".into())),
        }
    }
    pub fn coerce_to_int_i64(&self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
        match self.unpack() {
            RV::Fixnum(n) => Ok(n),
            RV::Float(f) => Ok(f as i64),
            RV::BigInt(_) => Err(MonorubyErr::Range("bignum too big".into())),
            _ => Err(MonorubyErr::Type("int".into())),
        }
    }
    pub fn coerce_to_rstring(&self, _: &mut Executor, _: &mut Globals) -> Result<&'static RStringInner> {
        self.is_rstring_inner().ok_or(MonorubyErr::Type("string".into()))
    }
    pub fn to_s(&self, _: &Store) -> String {
        String::new()
    }
}
pub struct RValue;
pub mod alloc {
    pub struct Allocator<T>(std::marker::PhantomData<T>);
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
}
impl Value {
    pub fn mark(&self, _: &mut alloc::Allocator<RValue>) {}
}
