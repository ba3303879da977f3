use super::*;

mod store;
pub use store::*;

pub struct Globals {
    pub store: Store,
    pub main_object: Value,
}
impl std::ops::Deref for Globals {
    type Target = Store;
    fn deref(&self) -> &Store {
        &self.store
    }
}
impl std::ops::DerefMut for Globals {
    fn deref_mut(&mut self) -> &mut Store {
        &mut self.store
    }
}
pub fn install_root() -> std::path::PathBuf {
    "/nowhere".into()
}
impl Globals {
    pub fn class_version_inc() {
        CODEGEN.with(|codegen| codegen.borrow_mut().class_version_inc());
    }
    pub fn class_version() -> u32 {
        CODEGEN.with(|codegen| codegen.borrow().class_version())
    }
    pub fn const_version_inc() {
        const_epoch::bump_wildcard();
        CODEGEN.with(|codegen| codegen.borrow_mut().const_version_inc());
    }
    pub fn const_version() -> u64 {
        CODEGEN.with(|codegen| codegen.borrow().const_version())
    }
    pub fn set_constant(&mut self, class_id: ClassId, name: IdentId, val: Value) {
        const_epoch::bump_name(name);
        CODEGEN.with(|codegen| codegen.borrow_mut().const_version_inc());
        self.store.set_constant(class_id, name, val);
    }
    pub fn remove_constant(&mut self, class_id: ClassId, name: IdentId) -> Option<Value> {
        const_epoch::bump_name(name);
        CODEGEN.with(|codegen| codegen.borrow_mut().const_version_inc());
        self.store[class_id].remove_constant(name)
    }
    pub fn get_gvar(&self, _: IdentId) -> Option<Value> {
        None
    }
    /// Object, BasicObject, Module, Class and Kernel, built the way the
    /// runtime's own start-up builds them.
    pub fn boot() -> (Self, Module) {
        let mut globals = Globals { store: Store::new(), main_object: Value::nil() };
        let mut object_class = globals.define_builtin_class("Object", OBJECT_CLASS, None, OBJECT_CLASS, ObjTy::OBJECT);
        let basic_object =
            globals.define_builtin_class("BasicObject", BASIC_OBJECT_CLASS, None, OBJECT_CLASS, ObjTy::OBJECT);
        object_class.set_superclass(Some(basic_object));
        globals.define_builtin_class_under_obj("Module", MODULE_CLASS, ObjTy::MODULE);
        let module = globals.get_module(MODULE_CLASS);
        globals.define_builtin_class("Class", CLASS_CLASS, module, OBJECT_CLASS, ObjTy::CLASS);
        let kernel = globals.define_toplevel_module("Kernel");
        object_class.include_module(kernel).unwrap();
        (globals, kernel)
    }
}
pub mod const_epoch {
    use crate::IdentId;
    use std::cell::{Cell, RefCell};
    use std::collections::HashMap;
    thread_local! {
        static WILDCARD: Cell<u64> = const { Cell::new(0) };
        static NAMES: RefCell<HashMap<IdentId, u64>> = RefCell::new(HashMap::new());
    }
    pub fn bump_name(name: IdentId) {
        NAMES.with_borrow_mut(|m| *m.entry(name).or_insert(0) += 1);
    }
    pub fn bump_wildcard() {
        WILDCARD.with(|w| w.set(w.get() + 1));
    }
    pub fn name_epoch(name: IdentId) -> u64 {
        NAMES.with_borrow(|m| m.get(&name).copied().unwrap_or(0))
    }
    pub fn wildcard() -> u64 {
        WILDCARD.with(|w| w.get())
    }
}
