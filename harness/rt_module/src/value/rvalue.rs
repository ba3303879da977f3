use super::*;
mod module;
pub use module::*;

pub const OBJECT_INLINE_IVAR: usize = 6;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ObjTy {
    OBJECT,
    CLASS,
    MODULE,
    STRING,
    ARRAY,
    HASH,
    STRUCT,
    EXCEPTION,
}
pub struct RValue {
    pub class: ClassId,
    pub ty: ObjTy,
    pub frozen: bool,
    pub module: Option<ModuleInner>,
    pub ivars: Vec<Option<Value>>,
}
impl RValue {
    pub fn ty(&self) -> ObjTy {
        self.ty
    }
    pub fn get_ivar(&self, store: &Store, name: IdentId) -> Option<Value> {
        self.get_ivar_by_ivarid(store[self.class].get_ivarid(name)?)
    }
    pub fn get_ivar_by_ivarid(&self, id: IvarId) -> Option<Value> {
        self.ivars.get(id.into_usize()).copied().flatten()
    }
    pub fn set_ivar_by_ivarid(&mut self, id: IvarId, v: Value) {
        if self.ivars.len() <= id.into_usize() {
            self.ivars.resize(id.into_usize() + 1, None);
        }
        self.ivars[id.into_usize()] = Some(v);
    }
    pub fn remove_ivar_by_ivarid(&mut self, id: IvarId) -> Option<Value> {
        self.ivars.get_mut(id.into_usize())?.take()
    }
}
