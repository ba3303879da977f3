//! Drives the runtime's Hash objects. Objects are numbered: 0..98 packed
//! immediates, 99 nil, 100.. strings (two neighbours share their content),
//! 200.. objects whose `hash` and `eql?` are user code (two neighbours are
//! eql?), 300.. procs. A step may name the user call which raises.
#![allow(dead_code, unused_imports)]
use common::*;
use std::io::Write as _;

pub mod value {
    /// a fixed key: digests of one process can be compared
    pub fn seeded_hasher() -> std::collections::hash_map::DefaultHasher {
        std::collections::hash_map::DefaultHasher::new()
    }
    pub fn symbol_hash_label(id: u32, _: bool) -> String {
        id.to_string()
    }
}

pub mod shim {
    pub use rubymap::{RubyEql, RubyHash};
    use std::hash::{Hash, Hasher};
    use std::mem::ManuallyDrop;
    use std::num::NonZeroU64;
    use std::ptr::NonNull;
    pub use crate::rvalue::hash::{HashBody, HashRef, HashRefMut, Hashmap, HashmapInner};

    #[derive(Debug, Clone, PartialEq)]
    pub enum MonorubyErr {
        /// raised by the hash itself
        Runtime(String),
        /// raised by user code
        User,
    }
    impl MonorubyErr {
        pub fn runtimeerr(s: impl ToString) -> Self {
            Self::Runtime(s.to_string())
        }
    }
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    pub type RubyMap<K, V> = rubymap::RubyMap<K, V, Executor, Globals, MonorubyErr>;
    /// Runs user code: `left` calls from now one raises.
    #[derive(Default)]
    pub struct Executor {
        pub left: i64,
        pub calls: i64,
        pub fired: bool,
    }
    pub struct Store;
    pub struct Globals;
    impl Executor {
        pub fn user(&mut self) -> Result<()> {
            self.calls += 1;
            if self.left > 0 {
                self.left -= 1;
                if self.left == 0 {
                    self.fired = true;
                    return Err(MonorubyErr::User);
                }
            }
            Ok(())
        }
        pub fn invoke_proc(&mut self, _: &mut Globals, p: &Proc, args: &[Value]) -> Result<Value> {
            assert!(args[0].ty() == Some(ObjTy::HASH));
            Ok(Value::integer(100000 + p.0.num() * 1000 + args[1].num()))
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ObjTy {
        STRING,
        OBJECT,
        HASH,
        PROC,
    }
    impl ObjTy {
        pub const NONE: Option<ObjTy> = None;
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
    pub struct RStringInner(pub Vec<u8>);
    pub union ObjKind {
        pub hash: ManuallyDrop<HashBody>,
        pub none: (),
    }
    #[repr(C)]
    pub struct RValue {
        pub ty: ObjTy,
        pub ty_flags: u8,
        pub num: i64,
        pub text: RStringInner,
        pub kind: ObjKind,
    }
    pub const RVALUE_OFFSET_KIND: usize = std::mem::offset_of!(RValue, kind);
    impl std::fmt::Debug for RValue {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "#{}", self.num)
        }
    }
    impl RValue {
        pub fn ty_flags_ptr(&self) -> NonNull<u8> {
            NonNull::from(&self.ty_flags)
        }
        pub fn ty(&self) -> ObjTy {
            self.ty
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq)]
    #[repr(transparent)]
    pub struct Value(pub NonZeroU64);
    impl Default for Value {
        fn default() -> Self {
            Self::nil()
        }
    }
    impl std::fmt::Debug for Value {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.num())
        }
    }
    /// what the write barrier was told: objects, or -1 for "look at all of it"
    pub static mut BARRIER: Vec<i64> = vec![];
    pub fn barrier() -> &'static mut Vec<i64> {
        unsafe { &mut *std::ptr::addr_of_mut!(BARRIER) }
    }
    impl Value {
        pub fn nil() -> Self {
            Value(NonZeroU64::new(4).unwrap())
        }
        pub fn integer(n: i64) -> Self {
            Value(NonZeroU64::new((n << 1) as u64 | 1).unwrap())
        }
        pub fn bool(b: bool) -> Self {
            Self::integer(b as i64)
        }
        pub fn is_nil(&self) -> bool {
            *self == Self::nil()
        }
        pub fn id(&self) -> u64 {
            self.0.get()
        }
        pub fn is_packed_value(&self) -> bool {
            self.id() & 7 != 0
        }
        pub fn try_rvalue(&self) -> Option<&'static RValue> {
            (!self.is_packed_value()).then(|| unsafe { &*(self.id() as *const RValue) })
        }
        pub fn rvalue(&self) -> &'static RValue {
            self.try_rvalue().unwrap()
        }
        pub fn rvalue_mut(&mut self) -> &'static mut RValue {
            assert!(!self.is_packed_value());
            unsafe { &mut *(self.id() as *mut RValue) }
        }
        pub fn heap(rv: RValue) -> Self {
            Value(NonZeroU64::new(Box::into_raw(Box::new(rv)) as u64).unwrap())
        }
        pub fn num(&self) -> i64 {
            match self.try_rvalue() {
                Some(rv) => rv.num,
                None if self.is_nil() => 99,
                None => (self.id() >> 1) as i64,
            }
        }
        pub fn ty(&self) -> Option<ObjTy> {
            self.try_rvalue().map(|r| r.ty)
        }
        pub fn is_rstring_inner(&self) -> Option<&'static RStringInner> {
            self.try_rvalue().filter(|r| r.ty == ObjTy::STRING).map(|r| &r.text)
        }
        pub fn ruby_hash_packed<H: Hasher>(&self, state: &mut H) {
            self.id().hash(state)
        }
        pub fn calculate_hash(self, e: &mut Executor, g: &mut Globals) -> Result<u64> {
            let mut s = crate::value::seeded_hasher();
            RubyHash::ruby_hash(&self, &mut s, e, g)?;
            Ok(s.finish())
        }
        pub fn mark(&self, alloc: &mut alloc::Allocator<RValue>) {
            if let Some(rv) = self.try_rvalue() {
                alloc.marked.push(rv.num);
            }
        }
        pub fn as_hashmap_inner(&self) -> HashRef<'static> {
            crate::rvalue::href(self.rvalue())
        }
        pub fn as_hashmap_inner_mut(&mut self) -> HashRefMut<'static> {
            crate::rvalue::href_mut(self.rvalue_mut())
        }
        pub fn as_hash(&self) -> Hashmap {
            Hashmap::new_unchecked(*self)
        }
        pub fn try_hash_ty(&self) -> Option<Hashmap> {
            (self.ty() == Some(ObjTy::HASH)).then(|| self.as_hash())
        }
        pub fn try_symbol(&self) -> Option<u32> {
            None
        }
        pub fn debug(&self, _: &Store) -> String {
            self.num().to_string()
        }
        pub fn inspect(&self, _: &Store) -> String {
            self.num().to_string()
        }
        pub fn inspect_inner(&self, _: &Store, _: &mut std::collections::HashSet<u64>) -> String {
            self.num().to_string()
        }
        pub fn write_barrier(&self, v: Value) {
            barrier().push(v.num());
        }
        pub fn write_barrier_bulk(&self) {
            barrier().push(-1);
        }
    }
    impl RubyHash<Executor, Globals, MonorubyErr> for Value {
        fn ruby_hash<H: Hasher>(&self, state: &mut H, e: &mut Executor, g: &mut Globals) -> Result<()> {
            match self.try_rvalue() {
                None => self.ruby_hash_packed(state),
                Some(rv) => match rv.ty {
                    ObjTy::STRING => rv.text.hash(state),
                    ObjTy::HASH => crate::rvalue::href(rv).ruby_hash(state, e, g)?,
                    ObjTy::PROC => self.id().hash(state),
                    ObjTy::OBJECT => {
                        e.user()?;
                        ((rv.num - 200) / 2 % 3).hash(state);
                    }
                },
            }
            Ok(())
        }
    }
    impl RubyEql<Executor, Globals, MonorubyErr> for Value {
        fn eql(&self, other: &Self, e: &mut Executor, g: &mut Globals) -> Result<bool> {
            if self.id() == other.id() {
                return Ok(true);
            }
            let (Some(l), Some(r)) = (self.try_rvalue(), other.try_rvalue()) else {
                return Ok(false);
            };
            Ok(match (l.ty, r.ty) {
                (ObjTy::STRING, ObjTy::STRING) => l.text == r.text,
                (ObjTy::HASH, ObjTy::HASH) => crate::rvalue::href(l).eql(&crate::rvalue::href(r), e, g)?,
                (ObjTy::OBJECT, _) => {
                    e.user()?;
                    r.ty == ObjTy::OBJECT && l.num / 2 == r.num / 2
                }
                _ => false,
            })
        }
    }
    #[derive(Debug, Clone, Copy)]
    #[repr(transparent)]
    pub struct Proc(pub Value);
    impl From<Proc> for Value {
        fn from(p: Proc) -> Value {
            p.0
        }
    }
    impl Proc {
        pub fn mark(&self, a: &mut alloc::Allocator<RValue>) {
            self.0.mark(a)
        }
    }
    pub mod alloc {
        pub struct Allocator<T> {
            pub marked: Vec<i64>,
            pub p: std::marker::PhantomData<T>,
        }
        impl Allocator<super::RValue> {
            /// odd-numbered objects are young
            pub fn is_old(&self, r: &super::RValue) -> bool {
                r.num % 2 == 0
            }
        }
        pub trait GC<T> {
            fn mark(&self, alloc: &mut Allocator<T>);
        }
    }
}

#[path = "/repo/monoruby/src/value/rvalue"]
pub mod rvalue {
    pub use crate::shim::*;
    pub mod hash;
    pub fn href(rv: &'static RValue) -> HashRef<'static> {
        unsafe { HashRef::from_rvalue(rv) }
    }
    pub fn href_mut(rv: &'static mut RValue) -> HashRefMut<'static> {
        unsafe { HashRefMut::from_rvalue(rv) }
    }
    fn wrap(flags: u8, body: HashBody) -> Value {
        Value::heap(RValue {
            ty: ObjTy::HASH,
            ty_flags: flags,
            num: 400,
            text: RStringInner::default(),
            kind: ObjKind { hash: std::mem::ManuallyDrop::new(body) },
        })
    }
    pub fn from_inner(i: HashmapInner) -> Value {
        let (flags, body) = i.into_parts();
        wrap(flags, body)
    }
    /// `dup`: the header's flags and the payload are copied separately
    pub fn dup(v: Value) -> Value {
        let rv = v.rvalue();
        wrap(hash::sanitize_dup_flags(rv.ty_flags), href(rv).clone_body())
    }
    pub fn free(mut v: Value) {
        unsafe {
            let rv = v.rvalue_mut();
            let f = rv.ty_flags;
            hash::drop_hash_body(f, &mut rv.kind.hash);
            drop(Box::from_raw(rv as *mut RValue));
        }
    }
    // What generated code reads, by the layout constants alone.
    pub struct Raw {
        pub pairs: Vec<(i64, i64)>,
        pub ident: bool,
        pub size: usize,
        pub default: Value,
        pub default_proc: Value,
    }
    pub fn raw(v: Value) -> Option<Raw> {
        use hash::*;
        let num = |p: *const u8| unsafe { p.cast::<Value>().read().num() };
        unsafe {
            let rv = v.rvalue();
            let p = rv as *const RValue as *const u8;
            let flags = rv.ty_flags;
            if flags & HASH_REP_MASK != HASH_REP_BOXED {
                let n = (flags & HASH_REP_MASK) as usize;
                let at = |i: usize| p.add(HASH_INLINE_PAIRS_OFFSET + i * HASH_INLINE_PAIR_STRIDE);
                return Some(Raw {
                    pairs: (0..n.min(HASH_INLINE_CAP)).map(|i| (num(at(i).add(HASH_INLINE_KEY_OFFSET)), num(at(i).add(HASH_INLINE_VALUE_OFFSET)))).collect(),
                    ident: flags & HASH_INLINE_IDENT_BIT != 0,
                    size: n,
                    default: Value::nil(),
                    default_proc: Value::nil(),
                });
            }
            let lay = hash_entries_layout()?;
            let map = p.add(HASH_CONTENT_MAP_OFFSET).cast::<*const u8>().read();
            let n = map.add(lay.len_offset).cast::<usize>().read();
            let base = map.add(lay.ptr_offset).cast::<*const u8>().read();
            let dead = p.add(HASH_DEAD_OFFSET).cast::<u32>().read() as usize;
            let d = p.add(HASH_DEFAULT_OFFSET).cast::<*const u8>().read();
            let def = |tag: usize| {
                if d.is_null() || d.cast::<usize>().read() != tag { Value::nil() } else { d.add(HASH_DEFAULT_PAYLOAD_OFFSET).cast::<Value>().read() }
            };
            Some(Raw {
                pairs: (0..n)
                    .map(|i| base.add(i * lay.bucket_size))
                    .filter(|e| e.add(lay.key_offset).cast::<u64>().read() != 0)
                    .map(|e| (num(e.add(lay.key_offset)), num(e.add(lay.value_offset))))
                    .collect(),
                ident: p.add(HASH_CONTENT_OFFSET).cast::<usize>().read() == HASH_CONTENT_TAG_IDENT,
                size: n.wrapping_sub(dead),
                default: def(HASH_DEFAULT_TAG_VALUE),
                default_proc: def(HASH_DEFAULT_TAG_PROC),
            })
        }
    }
}
use rvalue::hash::IterGuard;
use shim::alloc::GC as _;
use shim::*;

/// for operations which may or may not be able to fail
trait Fin {
    fn fin(self) -> Result<()>;
}
impl Fin for () {
    fn fin(self) -> Result<()> {
        Ok(())
    }
}
impl Fin for Result<()> {
    fn fin(self) -> Result<()> {
        self
    }
}

enum Ref {
    Guard(IterGuard<'static>),
    Count(bool),
}
struct Trav {
    r: Option<Ref>,
    pos: usize,
    cur: Option<usize>,
}
struct Reg {
    v: Value,
    trav: Vec<Trav>,
}
const REGS: usize = 3;
struct W {
    objs: std::collections::HashMap<i64, Value>,
    regs: Vec<Reg>,
    outer: Value,
    e: Executor,
    g: Globals,
}
fn res(r: Result<Res>) -> Res {
    match r {
        Ok(r) => r,
        Err(MonorubyErr::User) => ("err", vec![]),
        Err(MonorubyErr::Runtime(_)) => ("busy", vec![]),
    }
}
impl W {
    fn new() -> Self {
        W {
            objs: Default::default(),
            regs: (0..REGS).map(|_| Reg { v: rvalue::from_inner(HashmapInner::default()), trav: vec![] }).collect(),
            outer: rvalue::from_inner(HashmapInner::default()),
            e: Executor::default(),
            g: Globals,
        }
    }
    fn obj(&mut self, n: i64) -> Value {
        if n == 99 {
            return Value::nil();
        }
        if n < 100 {
            return Value::integer(n);
        }
        *self.objs.entry(n).or_insert_with(|| {
            Value::heap(RValue {
                ty: if n < 200 { ObjTy::STRING } else if n < 300 { ObjTy::OBJECT } else { ObjTy::PROC },
                ty_flags: 0,
                num: n,
                text: RStringInner(if n < 200 { format!("s{}", (n - 100) / 2).into_bytes() } else { vec![] }),
                kind: ObjKind { none: () },
            })
        })
    }
    fn put(&mut self, r: usize, v: Value) {
        let reg = &mut self.regs[r];
        while let Some(t) = reg.trav.pop() {
            stop(reg.v, t);
        }
        rvalue::free(reg.v);
        self.regs[r].v = v;
    }
    fn run(&mut self, o: &Op) -> Result<Res> {
        let a = &o.1;
        let r = a[0] as usize - 1;
        let val = |v: Option<Value>| match v {
            Some(v) => ("val", vec![v.num()]),
            None => ("none", vec![]),
        };
        match o.0 {
            "new" => {
                let n = a.len();
                let pairs: Vec<(Value, Value)> = (3..n).step_by(2).map(|i| (self.obj(a[i]), self.obj(a[i + 1]))).collect();
                let d = self.obj(a[2]);
                let mut map = RubyMap::default();
                for (k, v) in &pairs {
                    map.insert(*k, *v, &mut self.e, &mut self.g)?;
                }
                let inner = match a[1] {
                    0 => HashmapInner::default(),
                    1 => HashmapInner::new(map),
                    2 => HashmapInner::with_capacity(a[2] as usize),
                    3 => HashmapInner::new_with_default(map, d),
                    _ => HashmapInner::new_with_default_proc(map, Proc(d)),
                };
                self.put(r, rvalue::from_inner(inner));
                Ok(("ok", vec![]))
            }
            "dup" | "copy" => {
                let b = self.regs[a[1] as usize - 1].v;
                let n = if o.0 == "dup" { rvalue::dup(b) } else { rvalue::from_inner(b.as_hashmap_inner().clone_inner()) };
                self.put(r, n);
                Ok(("ok", vec![]))
            }
            "replace" => {
                let b = self.regs[a[1] as usize - 1].v;
                let mut h = self.regs[r].v.as_hash();
                h.replace_inner(b.as_hashmap_inner().clone_inner()).fin()?;
                Ok(("ok", vec![]))
            }
            "store" => {
                let (k, v) = (self.obj(a[1]), self.obj(a[2]));
                self.regs[r].v.as_hash().insert(k, v, &mut self.e, &mut self.g)?;
                Ok(("ok", vec![]))
            }
            "get" => {
                let k = self.obj(a[1]);
                Ok(val(self.regs[r].v.as_hash().get(k, &mut self.e, &mut self.g)?))
            }
            "has" => {
                let k = self.obj(a[1]);
                Ok(("bool", vec![self.regs[r].v.as_hash().contains_key(k, &mut self.e, &mut self.g)? as i64]))
            }
            "index" => {
                let k = self.obj(a[1]);
                Ok(val(Some(self.regs[r].v.as_hash().index(&mut self.e, &mut self.g, k)?)))
            }
            "del" => {
                let k = self.obj(a[1]);
                Ok(val(self.regs[r].v.as_hash().remove(k, &mut self.e, &mut self.g)?))
            }
            "shift" => Ok(match self.regs[r].v.as_hash().shift(&mut self.e, &mut self.g)? {
                Some((k, v)) => ("pair", vec![k.num(), v.num()]),
                None => ("none", vec![]),
            }),
            "clear" => {
                self.regs[r].v.as_hash().clear()?;
                Ok(("ok", vec![]))
            }
            "setdef" => {
                let v = self.obj(a[1]);
                self.regs[r].v.as_hash().set_defalut_value(v, &mut self.e, &mut self.g)?;
                Ok(("ok", vec![]))
            }
            "setproc" => {
                let v = self.obj(a[1]);
                self.regs[r].v.as_hash().set_defalut_proc(Proc(v), &mut self.e, &mut self.g)?;
                Ok(("ok", vec![]))
            }
            "ident" => {
                self.regs[r].v.as_hash().compare_by_identity(&mut self.e, &mut self.g)?;
                Ok(("ok", vec![]))
            }
            "mode" => {
                self.regs[r].v.as_hash().set_compare_by_identity_empty(a[1] != 0)?;
                Ok(("ok", vec![]))
            }
            "r2k" => {
                let mut h = self.regs[r].v.as_hash();
                if a[1] != 0 { h.set_ruby2_keywords_flag() } else { h.unset_ruby2_keywords_flag() }
                Ok(("ok", vec![]))
            }
            "begin" => {
                let h = self.regs[r].v.as_hashmap_inner();
                let g = if a[1] != 0 { Ref::Guard(h.iter_guard()) } else { Ref::Count(h.iter_incr()) };
                self.regs[r].trav.push(Trav { r: Some(g), pos: 0, cur: None });
                Ok(("ok", vec![]))
            }
            "next" => {
                let h = self.regs[r].v.as_hash();
                let t = &mut self.regs[r].trav[a[1] as usize - 1];
                t.cur = None;
                while t.pos < h.entry_count() {
                    let p = t.pos;
                    t.pos += 1;
                    if h.live_at(p) {
                        t.cur = Some(p);
                        let (k, v) = h.entry_at(p).expect("a live entry");
                        return Ok(("pair", vec![k.num(), v.num()]));
                    }
                }
                Ok(("none", vec![]))
            }
            // overwrite what the traversal is at
            "setat" => {
                let v = self.obj(a[2]);
                let mut h = self.regs[r].v.as_hash();
                if let Some(p) = self.regs[r].trav[a[1] as usize - 1].cur {
                    h.set_value_at(p, v);
                }
                Ok(("ok", vec![]))
            }
            "end" => {
                let t = self.regs[r].trav.pop().unwrap();
                stop(self.regs[r].v, t);
                Ok(("ok", vec![]))
            }
            "eql" => {
                let b = self.regs[a[1] as usize - 1].v;
                Ok(("bool", vec![self.regs[r].v.as_hashmap_inner().eql(&b.as_hashmap_inner(), &mut self.e, &mut self.g)? as i64]))
            }
            "digest" => Ok(("val", vec![(self.regs[r].v.calculate_hash(&mut self.e, &mut self.g)? & 0x3fff_ffff) as i64])),
            "nest" => {
                let k = rvalue::dup(self.regs[r].v);
                let v = self.obj(a[1]);
                self.outer.as_hash().insert(k, v, &mut self.e, &mut self.g)?;
                Ok(("ok", vec![]))
            }
            "find" => {
                let k = self.regs[r].v;
                Ok(val(self.outer.as_hash().get(k, &mut self.e, &mut self.g)?))
            }
            _ => unreachable!(),
        }
    }
    /// one step: the operation, then everything that can be seen of the hash
    fn ev(&mut self, o: Op, fault: i64, pool: &[i64]) -> String {
        about_to(|| op_json(&o));
        self.e = Executor { left: fault, calls: 0, fired: false };
        barrier().clear();
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| res(self.run(&o)))) {
            Ok(r) => r,
            Err(_) => ("panic", vec![]),
        };
        let fired = self.e.fired;
        let w = barrier().clone();
        self.e = Executor::default();
        let seen = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.seen(o.1[0] as usize - 1, pool)));
        let seen = seen.unwrap_or("\"c\":[],\"m\":[-1],\"l\":[],\"g\":[],\"raw\":[]".into());
        format!("{{\"o\":{},\"r\":{},\"f\":{},\"w\":{},{seen}}}", op_json(&o), res_json(&r), fired as i64, ints(&w))
    }
    fn seen(&mut self, r: usize, pool: &[i64]) -> String {
        let h = self.regs[r].v.as_hash();
        let i = h.inner();
        let mut c = vec![];
        for (k, v) in h.iter() {
            c.extend([k.num(), v.num()]);
        }
        let mut kv = vec![];
        for (k, v) in h.keys().iter().zip(h.values()) {
            kv.extend([k.num(), v.num()]);
        }
        let (dt, dv) = match (h.defalut_value(), h.defalut_proc()) {
            (Some(v), None) => (0, v.num()),
            (None, Some(p)) => (1, p.0.num()),
            _ => (2, 0),
        };
        let dv2 = h.default_value().map_or(99, |v| v.num());
        let mut l = vec![];
        for k in pool {
            let k = self.obj(*k);
            let got = h.get(k, &mut self.e, &mut self.g).unwrap();
            assert_eq!(got.is_some(), h.contains_key(k, &mut self.e, &mut self.g).unwrap());
            l.push(got.map_or(-1, |v| v.num()));
        }
        let mut al = shim::alloc::Allocator { marked: vec![], p: std::marker::PhantomData };
        i.mark(&mut al);
        let mut marked = al.marked.clone();
        marked.sort();
        marked.dedup();
        let mut m = vec![h.is_compare_by_identity() as i64, dt, dv, dv2, i.ruby2_keywords_flag() as i64, h.len() as i64, h.is_empty() as i64, i.young_child_exists(&al) as i64, h.check_iter().is_err() as i64];
        m.push((kv == c) as i64);
        let raw = match rvalue::raw(self.regs[r].v) {
            None => vec![-1],
            Some(x) => {
                let mut o = vec![x.ident as i64, x.size as i64, x.default.num(), x.default_proc.num()];
                for (k, v) in x.pairs {
                    o.extend([k, v]);
                }
                o
            }
        };
        format!("\"c\":{},\"m\":{},\"l\":{},\"g\":{},\"raw\":{}", ints(&c), ints(&m), ints(&l), ints(&marked), ints(&raw))
    }
    fn end(mut self) {
        for r in 0..REGS {
            self.put(r, rvalue::from_inner(HashmapInner::default()));
            rvalue::free(self.regs[r].v);
        }
        for k in self.outer.as_hash().keys() {
            rvalue::free(k);
        }
        rvalue::free(self.outer);
    }
}
fn stop(h: Value, mut t: Trav) {
    match t.r.take() {
        Some(Ref::Count(real)) => h.as_hash().iter_decr(real),
        g => drop(g),
    }
}

fn line(pool: &[i64], evs: &[String]) -> String {
    format!("{{\"p\":{},\"ev\":[{}]}}", ints(pool), evs.join(","))
}
fn value(g: &mut Rng) -> i64 {
    match g.below(8) {
        0 => 99,
        1 => g.range(100, 105),
        2 => g.range(200, 205),
        _ => g.range(0, 9),
    }
}
fn main() {
    let a = Args::new();
    quiet_panics();
    watchdog(20);
    crash_report();
    let mut out = a.out();
    let mut g = Rng::new(a.num("seed", 1));
    match a.mode() {
        "gen" => {
            let focus = a.get("focus").unwrap_or("all").to_string();
            for _ in 0..a.num("n", 100) {
                let mut w = W::new();
                // the keys of this history
                let size = *g.pick(&[4, 6, 8, 12, 20, 32]);
                let mix = g.below(5);
                let mut pool: Vec<i64> = vec![];
                for i in 0..size {
                    let x = match mix {
                        0 => 0,
                        1 => 100,
                        2 => 200,
                        _ => *g.pick(&[0, 100, 200]),
                    };
                    pool.push(x + i);
                }
                let hot = g.below(4);
                let mut evs: Vec<String> = vec![];
                for _ in 0..a.num("len", 40) {
                    let r = 1 + if g.chance(2, 3) { 0 } else { g.below(REGS as u64) as usize };
                    let k = *g.pick(&pool);
                    let depth = w.regs[r - 1].trav.len();
                    let empty = w.regs[r - 1].v.as_hash().is_empty();
                    let b = g.range(1, REGS as i64);
                    let r = r as i64;
                    let t = if depth > 0 { g.range(1, depth as i64) } else { 0 };
                    let ws: [u32; 24] = match focus.as_str() {
                        "iter" => [1, 24, 3, 2, 1, 16, 6, 3, 1, 1, 1, 1, 1, 1, 2, 1, 12, 24, 8, 8, 0, 0, 0, 0],
                        "equal" => [2, 40, 1, 1, 1, 12, 3, 2, 2, 1, 2, 2, 0, 4, 4, 2, 3, 3, 1, 3, 12, 8, 4, 8],
                        _ => [2, 50, 6, 4, 5, 20, 8, 3, 3, 2, 2, 3, 2, 3, 3, 3, 4, 8, 3, 4, 2, 2, 1, 2],
                    };
                    let o: Op = match g.weighted(&ws) {
                        0 => {
                            let mode = g.range(0, 4);
                            let d = match mode {
                                2 => g.range(0, 20),
                                4 => g.range(300, 301),
                                _ => value(&mut g),
                            };
                            let mut v = vec![r, mode, d];
                            if mode == 1 || mode >= 3 {
                                for _ in 0..g.below(6) {
                                    v.extend([*g.pick(&pool), value(&mut g)]);
                                }
                            }
                            ("new", v)
                        }
                        1 => ("store", vec![r, k, value(&mut g)]),
                        2 => ("get", vec![r, k]),
                        3 => ("has", vec![r, k]),
                        4 => ("index", vec![r, k]),
                        5 => ("del", vec![r, k]),
                        6 => ("shift", vec![r]),
                        7 => ("clear", vec![r]),
                        8 => ("setdef", vec![r, value(&mut g)]),
                        9 => ("setproc", vec![r, g.range(300, 301)]),
                        10 => ("ident", vec![r]),
                        11 if empty => ("mode", vec![r, g.range(0, 1)]),
                        12 => ("r2k", vec![r, g.range(0, 1)]),
                        13 => ("dup", vec![r, b]),
                        14 => ("copy", vec![r, b]),
                        15 => ("replace", vec![r, b]),
                        16 if depth < 6 => ("begin", vec![r, g.range(0, 1)]),
                        17 if depth > 0 => ("next", vec![r, t]),
                        18 if depth > 0 => ("setat", vec![r, t, value(&mut g)]),
                        19 if depth > 0 => ("end", vec![r]),
                        20 => ("eql", vec![r, b]),
                        21 => ("digest", vec![r]),
                        22 => ("nest", vec![r, value(&mut g)]),
                        23 => ("find", vec![r]),
                        _ => ("store", vec![r, k, value(&mut g)]),
                    };
                    let fault = if g.chance(hot, 12) { g.range(1, 4) } else { 0 };
                    evs.push(w.ev(o, fault, &pool));
                    if evs.last().unwrap().contains("\"panic\"") || evs.last().unwrap().contains("\"m\":[-1]") {
                        break;
                    }
                }
                let dead = evs.last().is_some_and(|e| e.contains("\"panic\"") || e.contains("\"m\":[-1]"));
                writeln!(out, "{}", line(&pool, &evs)).unwrap();
                if dead {
                    std::mem::forget(w);
                } else {
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.end()));
                }
            }
        }
        // every sequence of `len` operations from each of a few first states
        "small" => {
            let len = a.num("len", 3) as usize;
            let pool = vec![1, 2, 3, 4, 100, 101, 200, 201];
            let firsts: Vec<Vec<Op>> = vec![
                vec![],
                vec![("new", vec![1, 1, 0, 1, 11, 2, 12, 3, 13])],
                vec![("new", vec![1, 1, 0, 1, 11, 2, 12, 3, 13, 4, 14])],
                vec![("new", vec![1, 1, 0, 100, 11, 200, 12, 1, 13])],
                vec![("new", vec![1, 3, 21, 1, 11, 2, 12])],
                vec![("new", vec![1, 4, 300, 1, 11, 100, 12])],
                vec![("mode", vec![1, 1]), ("store", vec![1, 100, 11]), ("store", vec![1, 101, 12])],
                vec![("new", vec![1, 2, 9]), ("ident", vec![1]), ("store", vec![1, 1, 11]), ("store", vec![1, 200, 12])],
                vec![("new", vec![1, 1, 0, 1, 11, 2, 12, 3, 13, 4, 14]), ("begin", vec![1, 0]), ("del", vec![1, 2])],
                vec![("new", vec![1, 1, 0, 1, 11, 2, 12, 3, 13]), ("begin", vec![1, 1]), ("next", vec![1, 1])],
            ];
            let ops: Vec<Op> = vec![
                ("store", vec![1, 1, 31]),
                ("store", vec![1, 4, 32]),
                ("store", vec![1, 101, 33]),
                ("store", vec![1, 201, 34]),
                ("del", vec![1, 1]),
                ("del", vec![1, 101]),
                ("del", vec![1, 200]),
                ("shift", vec![1]),
                ("clear", vec![1]),
                ("setdef", vec![1, 22]),
                ("setdef", vec![1, 99]),
                ("ident", vec![1]),
                ("mode", vec![1, 0]),
                ("mode", vec![1, 1]),
                ("dup", vec![1, 1]),
                ("replace", vec![1, 2]),
                ("replace", vec![2, 1]),
                ("begin", vec![1, 0]),
                ("next", vec![1, 1]),
                ("setat", vec![1, 1, 35]),
                ("end", vec![1]),
                ("index", vec![1, 4]),
                ("digest", vec![1]),
            ];
            for f in &firsts {
                let mut idx = vec![0usize; len];
                loop {
                    let mut w = W::new();
                    let mut evs = vec![];
                    let mut ok = true;
                    for o in f.iter().cloned().chain(idx.iter().map(|i| ops[*i].clone())) {
                        let reg = &w.regs[o.1[0] as usize - 1];
                        if matches!(o.0, "next" | "setat" | "end") && reg.trav.is_empty() || o.0 == "mode" && !reg.v.as_hash().is_empty() {
                            ok = false;
                            break;
                        }
                        evs.push(w.ev(o, 0, &pool));
                        if evs.last().unwrap().contains("\"panic\"") || evs.last().unwrap().contains("\"m\":[-1]") {
                            break;
                        }
                    }
                    let dead = evs.last().is_some_and(|e| e.contains("\"panic\"") || e.contains("\"m\":[-1]"));
                    if ok {
                        writeln!(out, "{}", line(&pool, &evs)).unwrap();
                    }
                    if dead {
                        std::mem::forget(w);
                    } else {
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.end()));
                    }
                    let mut p = len;
                    while p > 0 {
                        p -= 1;
                        idx[p] += 1;
                        if idx[p] < ops.len() {
                            break;
                        }
                        idx[p] = 0;
                        if p == 0 {
                            p = usize::MAX;
                            break;
                        }
                    }
                    if p == usize::MAX || len == 0 {
                        break;
                    }
                }
            }
        }
        m => panic!("mode {m}"),
    }
}
