//! Stand-ins for the interpreter types the scheduler mentions.
use crate::alloc::{self, Allocator};
use crate::value::rvalue::ThreadInner;
use std::cell::{Cell, RefCell};
use std::num::NonZeroU64;
use std::ptr::NonNull;

pub type Result<T> = std::result::Result<T, MonorubyErr>;
pub struct RValue;

/// An index into the table of objects, plus one.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(transparent)]
pub struct Value(NonZeroU64);
pub enum Obj {
    Nil,
    Plain,
    Int(i64),
    Class(ClassId),
    Text(String),
    Thread(Box<ThreadInner>),
}
thread_local! {
    static HEAP: RefCell<Vec<Box<Obj>>> = const { RefCell::new(Vec::new()) };
    pub static LIVE: Cell<usize> = const { Cell::new(0) };
    /// threads whose failure is passed on to the main thread
    pub static ABORT: RefCell<Vec<Value>> = const { RefCell::new(Vec::new()) };
    /// reports written
    pub static REPORTS: Cell<i64> = const { Cell::new(0) };
}
impl Value {
    fn new(o: Obj) -> Value {
        HEAP.with(|h| {
            let mut h = h.borrow_mut();
            if h.is_empty() {
                h.push(Box::new(Obj::Nil));
            }
            h.push(Box::new(o));
            Value(NonZeroU64::new(h.len() as u64).unwrap())
        })
    }
    fn get(&self) -> &'static mut Obj {
        HEAP.with(|h| {
            let mut h = h.borrow_mut();
            if h.is_empty() {
                h.push(Box::new(Obj::Nil));
            }
            unsafe { &mut *(&mut *h[self.0.get() as usize - 1] as *mut Obj) }
        })
    }
    pub fn nil() -> Value {
        Value(NonZeroU64::new(1).unwrap())
    }
    pub fn id(&self) -> u64 {
        self.0.get()
    }
    pub fn int(i: i64) -> Value {
        Value::new(Obj::Int(i))
    }
    pub fn as_int(&self) -> i64 {
        match self.get() {
            Obj::Int(i) => *i,
            _ => -1,
        }
    }
    pub fn class(c: ClassId) -> Value {
        Value::new(Obj::Class(c))
    }
    pub fn object(_: ClassId) -> Value {
        Value::new(Obj::Plain)
    }
    pub fn string(s: String) -> Value {
        Value::new(Obj::Text(s))
    }
    pub fn new_thread(_: ClassId, t: ThreadInner) -> Value {
        Value::new(Obj::Thread(Box::new(t)))
    }
    pub fn as_thread_inner(&self) -> &'static ThreadInner {
        match self.get() {
            Obj::Thread(t) => t,
            _ => panic!("not a thread"),
        }
    }
    pub fn as_thread_inner_mut(&mut self) -> &'static mut ThreadInner {
        match self.get() {
            Obj::Thread(t) => t,
            _ => panic!("not a thread"),
        }
    }
    pub fn is_class_or_module(&self) -> Option<Module> {
        match self.get() {
            Obj::Class(c) => Some(Module(*c)),
            _ => None,
        }
    }
    pub fn is_exception(&self) -> Option<&'static ExceptionInner> {
        None
    }
    pub fn is_nil(&self) -> bool {
        self.id() == 1
    }
    pub fn as_bool(&self) -> bool {
        !self.is_nil()
    }
    pub fn is_str(&self) -> Option<&'static str> {
        match self.get() {
            Obj::Text(s) => Some(s),
            _ => None,
        }
    }
    pub fn mark(&self, _: &mut Allocator<RValue>) {}
}
impl Default for Value {
    fn default() -> Self {
        Value::nil()
    }
}
pub struct ExceptionInner;

pub type ClassId = u32;
pub const OBJECT_CLASS: ClassId = 1000;
pub const THREAD_CLASS: ClassId = 1001;
/// exception classes 1..: 1 above 2 and 4, 2 above 3
pub fn superclass(c: ClassId) -> Option<ClassId> {
    match c {
        2 | 4 => Some(1),
        3 => Some(2),
        _ => None,
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Module(pub ClassId);
impl Module {
    pub fn id(&self) -> u64 {
        self.0 as u64
    }
    pub fn superclass(&self) -> Option<Module> {
        superclass(self.0).map(Module)
    }
    pub fn as_val(&self) -> Value {
        Value::nil()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum MonorubyErrKind {
    Throw(Value, Value),
    SystemExit(u8),
    MethodReturn(Value),
    BlockBreak(Value),
    Fatal,
    Other(ClassId),
}
#[derive(Clone, Copy, Debug)]
pub struct Loc;
#[derive(Clone, Debug)]
pub struct SourceInfo;
#[derive(Clone, Copy, Debug)]
pub struct FuncId;
#[derive(Clone, Debug)]
pub struct MonorubyErr {
    kind: MonorubyErrKind,
    message: String,
    /// which raise this is
    pub no: i64,
    pub trace: Vec<(Option<(Loc, SourceInfo)>, Option<FuncId>)>,
    pub original: Option<Value>,
    pub explicit_cause: Option<Value>,
}
impl MonorubyErr {
    pub fn new(kind: MonorubyErrKind, m: impl ToString) -> Self {
        MonorubyErr { kind, message: m.to_string(), no: 0, trace: vec![], original: None, explicit_cause: None }
    }
    pub fn raised(class: ClassId, no: i64) -> Self {
        let mut e = Self::new(MonorubyErrKind::Other(class), "");
        e.no = no;
        e
    }
    pub fn throw(tag: Value, v: Value) -> Self {
        Self::new(MonorubyErrKind::Throw(tag, v), "throw")
    }
    pub fn fatal(m: impl ToString) -> Self {
        Self::new(MonorubyErrKind::Fatal, m)
    }
    pub fn typeerr(m: impl ToString) -> Self {
        Self::new(MonorubyErrKind::Other(901), m)
    }
    pub fn ioerr(m: impl ToString) -> Self {
        Self::new(MonorubyErrKind::Other(902), m)
    }
    pub fn threaderr(_: &Store, m: impl ToString) -> Self {
        Self::new(MonorubyErrKind::Other(903), m)
    }
    pub fn localjumperr(m: impl ToString) -> Self {
        Self::new(MonorubyErrKind::Other(904), m)
    }
    pub fn new_from_exception(_: &ExceptionInner) -> Self {
        Self::new(MonorubyErrKind::Other(905), "")
    }
    pub fn with_original(mut self, v: Value) -> Self {
        self.original = Some(v);
        self
    }
    pub fn kind(&self) -> &MonorubyErrKind {
        &self.kind
    }
    pub fn message(&self) -> &str {
        &self.message
    }
    pub fn class_id(&self) -> ClassId {
        match self.kind {
            MonorubyErrKind::Other(c) => c,
            _ => 0,
        }
    }
    pub fn class_name(&self, _: &Store) -> String {
        String::new()
    }
    pub fn mark(&self, _: &mut Allocator<RValue>) {}
}
pub struct Store;
impl Store {
    pub fn get_module(&self, c: ClassId) -> Module {
        Module(c)
    }
    pub fn get_ivar(&self, v: Value, n: IdentId) -> Option<Value> {
        match n.0 {
            "@abort_on_exception" if ABORT.with(|a| a.borrow().contains(&v)) => Some(Value::int(1)),
            _ => None,
        }
    }
    pub fn location(&self, _: Option<FuncId>, _: &SourceInfo, _: Loc) -> String {
        String::new()
    }
    pub fn internal_location(&self, _: FuncId) -> String {
        String::new()
    }
}
pub struct Globals {
    pub store: Store,
}
impl Globals {
    pub fn get_gvar(&self, _: IdentId) -> Option<Value> {
        None
    }
}
#[derive(Clone, Copy)]
pub struct IdentId(&'static str);
impl IdentId {
    pub fn get_id(s: &'static str) -> Self {
        IdentId(s)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FiberState {
    Created,
    Suspended,
    Terminated,
}
#[derive(Debug)]
pub struct Executor {
    pub rsp: u64,
    pub state: FiberState,
    error: Option<MonorubyErr>,
}
impl Default for Executor {
    fn default() -> Self {
        Executor { rsp: 0, state: FiberState::Created, error: None }
    }
}
impl Executor {
    pub fn set_error(&mut self, e: MonorubyErr) {
        assert!(self.error.is_none());
        self.error = Some(e);
    }
    pub fn take_error(&mut self) -> MonorubyErr {
        self.error.take().expect("no error set")
    }
    pub fn parent_fiber(&self) -> Option<NonNull<Executor>> {
        None
    }
    pub fn fiber_state(&self) -> FiberState {
        self.state
    }
    pub fn save_rsp(&mut self, p: *mut u8) {
        self.rsp = p as u64;
    }
    pub fn set_stack_limit(&mut self, _: *mut u8) {}
    pub fn set_inherited_storage(&mut self, _: Value) {}
    pub fn enter_root_svar_scope(&mut self, _: Lfp) {}
    pub fn mark(&self, _: &mut Allocator<RValue>) {}
    pub fn invoke_method_inner(
        &mut self,
        _: &mut Globals,
        n: IdentId,
        _: Value,
        _: &[Value],
        _: Option<()>,
        _: Option<()>,
    ) -> Result<Value> {
        if n.0 == "write" {
            REPORTS.with(|r| r.set(r.get() + 1));
        }
        Ok(Value::nil())
    }
}
#[derive(Clone, Copy)]
pub struct Lfp;
/// A thread's body: which thread this is.
#[derive(Debug, Clone)]
pub struct Proc(pub usize);
impl Proc {
    pub fn mark(&self, _: &mut Allocator<RValue>) {}
}
pub struct ProcData(pub usize);
impl ProcData {
    pub fn from_proc(p: &Proc) -> Self {
        ProcData(p.0)
    }
    pub fn outer(&self) -> Lfp {
        Lfp
    }
}

pub type ThreadInvoker =
    extern "C" fn(&mut Executor, &mut Globals, &ProcData, Value, *const Value, usize) -> Option<Value>;
pub struct Codegen {
    pub thread_invoker: ThreadInvoker,
    pub switch_to_scheduler: extern "C" fn(*mut Executor, Value) -> Option<Value>,
    pub scheduler_resume: extern "C" fn(*mut Executor, u64) -> Option<Value>,
}
thread_local! {
    pub static CODEGEN: RefCell<Codegen> = const { RefCell::new(Codegen {
        thread_invoker: invoke, switch_to_scheduler: to_scheduler, scheduler_resume: resume }) };
}

/// Save this context, continue the other one, hand it `val`.
#[unsafe(naked)]
unsafe extern "C" fn switch(save: *mut u64, to: u64, val: u64) -> u64 {
    core::arch::naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp", "mov rsp, rsi",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
        "mov rax, rdx", "ret",
    )
}
fn opt(v: u64) -> Option<Value> {
    NonZeroU64::new(v).map(Value)
}
fn sched_slot() -> *mut u64 {
    crate::scheduler::sched_rsp_addr() as *mut u64
}
struct Begin(*mut Executor, *mut Globals, usize);
thread_local! {
    static BEGIN: Cell<Option<(usize, usize, usize)>> = const { Cell::new(None) };
}
extern "C" fn invoke(
    e: &mut Executor,
    g: &mut Globals,
    p: &ProcData,
    _: Value,
    _: *const Value,
    _: usize,
) -> Option<Value> {
    BEGIN.set(Some((e as *mut _ as usize, g as *mut _ as usize, p.0)));
    unsafe {
        // six registers, the entry address at a multiple of 16, no caller
        let top = (e.rsp & !15) - 32;
        let s = top as *mut u64;
        *s = entry as *const () as u64;
        *s.add(1) = 0;
        for k in 1..=6 {
            *s.sub(k) = 0;
        }
        opt(switch(sched_slot(), top - 48, 0))
    }
}
extern "C" fn entry() -> ! {
    let (e, g, t) = BEGIN.take().unwrap();
    let (e, g) = unsafe { (&mut *(e as *mut Executor), &mut *(g as *mut Globals)) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::driver::body(e, g, t)));
    let v = match r {
        Ok(Ok(v)) => v.id(),
        Ok(Err(err)) => {
            e.set_error(err);
            0
        }
        Err(_) => std::ctl::finish("panic"),
    };
    e.state = FiberState::Terminated;
    let to = unsafe { *sched_slot() };
    unsafe { switch(&mut e.rsp, to, v) };
    unreachable!()
}
extern "C" fn to_scheduler(e: *mut Executor, v: Value) -> Option<Value> {
    unsafe {
        let to = *sched_slot();
        opt(switch(&mut (*e).rsp, to, v.id()))
    }
}
extern "C" fn resume(e: *mut Executor, v: u64) -> Option<Value> {
    unsafe { opt(switch(sched_slot(), (*e).rsp, v)) }
}
