use super::*;
pub mod rvalue;
pub use rvalue::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Encoding {
    Ascii8,
    Utf8,
    UsAscii,
    Utf16Le,
    Iso8859(u8),
    EucJp,
    Sjis(u8),
    Other(u8),
}

/// An immediate (nil, a number, a symbol) or a box.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Value(u64);
impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:x}", self.0)
    }
}
impl alloc::GC<RValue> for Value {
    fn mark(&self, _: &mut alloc::Allocator<RValue>) {}
}
impl Value {
    pub fn nil() -> Self {
        Self(4)
    }
    pub fn fixnum(i: i64) -> Self {
        Self((i as u64) << 1 | 1)
    }
    pub fn symbol(id: IdentId) -> Self {
        Self((id.get() as u64) << 8 | 0xc)
    }
    pub fn try_symbol(self) -> Option<IdentId> {
        if self.0 & 0xff == 0xc { Some(IdentId::from((self.0 >> 8) as u32)) } else { None }
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        if self.0 & 1 == 1 { Some(self.0 as i64 >> 1) } else { None }
    }
    pub fn id(&self) -> u64 {
        self.0
    }
    pub fn try_rvalue(&self) -> Option<&RValue> {
        if self.0 & 7 == 0 { Some(unsafe { &*(self.0 as *const RValue) }) } else { None }
    }
    pub fn try_rvalue_mut(&mut self) -> Option<&mut RValue> {
        if self.0 & 7 == 0 { Some(unsafe { &mut *(self.0 as *mut RValue) }) } else { None }
    }
    pub fn try_rvalue_mut_or_frozen(&mut self, _: &Store) -> Result<&mut RValue> {
        if self.is_frozen() {
            return Err(MonorubyErr::frozenerr("frozen"));
        }
        self.try_rvalue_mut().ok_or(MonorubyErr::frozenerr("frozen"))
    }
    pub fn ty(&self) -> Option<ObjTy> {
        self.try_rvalue().map(|r| r.ty())
    }
    pub fn class(&self) -> ClassId {
        match self.try_rvalue() {
            Some(r) => r.class,
            None if self.try_fixnum().is_some() => INTEGER_CLASS,
            None if *self == Self::nil() => NIL_CLASS,
            None => SYMBOL_CLASS,
        }
    }
    pub fn change_class(&mut self, c: ClassId) {
        self.try_rvalue_mut().unwrap().class = c;
    }
    pub fn is_frozen(&self) -> bool {
        self.try_rvalue().is_none_or(|r| r.frozen)
    }
    pub fn set_frozen(&mut self) {
        self.try_rvalue_mut().unwrap().frozen = true;
    }
    pub fn is_class_or_module(&self) -> Option<Module> {
        match self.try_rvalue()?.ty() {
            ObjTy::CLASS | ObjTy::MODULE => Some(Module::new_unchecked(*self)),
            _ => None,
        }
    }
    pub fn expect_class_or_module(&self, _: &Store) -> Result<Module> {
        self.is_class_or_module().ok_or(MonorubyErr::typeerr("not a class"))
    }
    pub fn bool(b: bool) -> Self {
        Self(if b { 0x1c } else { 0x14 })
    }
    pub fn string_from_str(s: &str) -> Self {
        Self::symbol(IdentId::get_id(s))
    }
    pub fn as_class(&self) -> Module {
        self.is_class_or_module().unwrap()
    }
    pub fn as_module_inner(&self) -> &ModuleInner {
        self.try_rvalue().unwrap().module.as_ref().unwrap()
    }
    pub fn as_module_inner_mut(&mut self) -> &mut ModuleInner {
        self.try_rvalue_mut().unwrap().module.as_mut().unwrap()
    }
    pub fn to_s(&self, store: &Store) -> String {
        match self.is_class_or_module() {
            Some(m) => store.get_class_name(m.id()),
            None => format!("#<{:x}>", self.0),
        }
    }
    pub fn debug_tos(&self, store: &Store) -> String {
        self.to_s(store)
    }
    pub fn try_array_ty(&self) -> Option<Vec<Value>> {
        None
    }
    pub fn string_from_source_bytes(_: &[u8], _: Encoding) -> Self {
        Self::boxed(STRING_CLASS, ObjTy::STRING, None)
    }
    fn boxed(class: ClassId, ty: ObjTy, module: Option<ModuleInner>) -> Self {
        Self(Box::into_raw(Box::new(RValue { class, ty, frozen: false, module, ivars: vec![] })) as u64)
    }
    pub fn class_empty(id: ClassId, superclass: Option<Module>) -> Self {
        Self::boxed(CLASS_CLASS, ObjTy::CLASS, Some(ModuleInner::new(id, superclass, None, ModuleType::RealClass)))
    }
    pub fn singleton_class_empty(id: ClassId, superclass: Option<Module>, obj: Value) -> Self {
        Self::boxed(CLASS_CLASS, ObjTy::CLASS, Some(ModuleInner::new(id, superclass, Some(obj), ModuleType::RealClass)))
    }
    pub fn module_empty(id: ClassId, superclass: Option<Module>) -> Self {
        Self::boxed(MODULE_CLASS, ObjTy::MODULE, Some(ModuleInner::new(id, superclass, None, ModuleType::RealClass)))
    }
    pub fn iclass(id: ClassId, superclass: Option<Module>) -> Self {
        Self::boxed(MODULE_CLASS, ObjTy::MODULE, Some(ModuleInner::new(id, superclass, None, ModuleType::IClass)))
    }
    pub fn object(class: ClassId) -> Self {
        Self::boxed(class, ObjTy::OBJECT, None)
    }
    pub fn object_with_ivar_capacity(class: ClassId, _: usize) -> Self {
        Self::object(class)
    }
    pub fn struct_object(class: ClassId, _: usize) -> Self {
        Self::boxed(class, ObjTy::STRUCT, None)
    }
}

/// Whoever is told about warnings.
pub trait Warned {
    fn warned(&mut self);
}
pub fn emit_deprecated_constant_warning<E: Warned>(vm: &mut E, _: &mut Globals, _: &str) -> Result<()> {
    vm.warned();
    Ok(())
}
pub fn emit_verbose_warning<E: Warned>(vm: &mut E, _: &mut Globals, _: &str) -> Result<()> {
    vm.warned();
    Ok(())
}
