//! Functions: numbered records that remember name and owners.
use super::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct FuncId(pub u32);
impl FuncId {
    pub fn lexical_class(self, store: &Store) -> ClassId {
        store[self].is_iseq().and_then(|i| store[i].lexical_context.last().copied()).unwrap_or(OBJECT_CLASS)
    }
}
#[derive(Debug, Clone)]
pub enum FuncKind {
    ISeq(ISeqId),
    Proc(Proc),
    Other,
}
#[derive(Debug, Clone)]
pub struct FuncInfo {
    pub(crate) kind: FuncKind,
    name: Option<IdentId>,
    owner: Vec<ClassId>,
}
impl FuncInfo {
    pub(crate) fn name(&self) -> Option<IdentId> {
        self.name
    }
    pub(crate) fn owner_class(&self) -> &[ClassId] {
        &self.owner
    }
    pub(crate) fn set_owner_class(&mut self, class: ClassId) {
        self.owner.push(class);
    }
    pub(crate) fn entry_label(&self) -> DestLabel {
        DestLabel(0)
    }
    pub(crate) fn is_iseq(&self) -> Option<ISeqId> {
        match self.kind {
            FuncKind::ISeq(i) => Some(i),
            _ => None,
        }
    }
    pub(crate) fn as_iseq(&self) -> ISeqId {
        self.is_iseq().unwrap()
    }
    pub(crate) fn is_classdef(&self) -> bool {
        false
    }
    pub(crate) fn set_svar_transparent(&mut self) {}
    pub(crate) fn set_pc_regnum(&mut self, _: BytecodePtr, _: u16) {}
    fn of(kind: FuncKind, name: Option<IdentId>) -> Self {
        Self { kind, name, owner: vec![] }
    }
    pub(crate) fn new_classdef_iseq(name: Option<IdentId>, _: FuncId, i: ISeqId) -> Self {
        Self::of(FuncKind::ISeq(i), name)
    }
    pub(crate) fn new_method_iseq(name: Option<IdentId>, _: FuncId, i: ISeqId, _: ParamsInfo, _: bool) -> Self {
        Self::of(FuncKind::ISeq(i), name)
    }
    pub(crate) fn new_block_iseq(_: FuncId, i: ISeqId, _: ParamsInfo, _: bool) -> Self {
        Self::of(FuncKind::ISeq(i), None)
    }
}
#[derive(Default)]
pub(crate) struct Funcs {
    pub(crate) info: Vec<FuncInfo>,
}
impl std::ops::Index<FuncId> for Funcs {
    type Output = FuncInfo;
    fn index(&self, i: FuncId) -> &FuncInfo {
        &self.info[i.0 as usize]
    }
}
impl std::ops::IndexMut<FuncId> for Funcs {
    fn index_mut(&mut self, i: FuncId) -> &mut FuncInfo {
        &mut self.info[i.0 as usize]
    }
}
impl alloc::GC<RValue> for Funcs {
    fn mark(&self, _: &mut alloc::Allocator<RValue>) {}
}
#[allow(clippy::too_many_arguments)]
impl Funcs {
    fn add(&mut self, kind: FuncKind, name: Option<IdentId>) -> FuncId {
        let id = self.next_func_id();
        self.info.push(FuncInfo::of(kind, name));
        id
    }
    pub(crate) fn next_func_id(&self) -> FuncId {
        FuncId(self.info.len() as u32)
    }
    pub(crate) fn add_compile_info(&mut self, _: CompileInfo) {}
    pub(crate) fn functions(&self) -> &[FuncInfo] {
        &self.info
    }
    pub(crate) fn function_len(&self) -> usize {
        self.info.len()
    }
    pub(crate) fn new_native_func(&mut self, name: String, _: BuiltinFn, _: usize, _: usize, _: bool, _: &[&str], _: bool) -> FuncId {
        self.add(FuncKind::Other, Some(IdentId::get_id(&name)))
    }
    pub(crate) fn new_native_basic_op(&mut self, name: String, _: BuiltinFn, _: usize, _: usize, _: bool) -> FuncId {
        self.add(FuncKind::Other, Some(IdentId::get_id(&name)))
    }
    pub(crate) fn new_native_func_with_effect(&mut self, name: String, _: BuiltinFn, _: usize, _: usize, _: bool, _: Effect) -> FuncId {
        self.add(FuncKind::Other, Some(IdentId::get_id(&name)))
    }
    pub(crate) fn new_proc_method(&mut self, p: Proc) -> FuncId {
        self.add(FuncKind::Proc(p), None)
    }
    pub(crate) fn new_attr_reader(&mut self, name: IdentId, _: IdentId) -> FuncId {
        self.add(FuncKind::Other, Some(name))
    }
    pub(crate) fn new_attr_writer(&mut self, name: IdentId, _: IdentId) -> FuncId {
        self.add(FuncKind::Other, Some(name))
    }
    pub(crate) fn new_struct_reader(&mut self, name: IdentId, _: u16, _: bool) -> FuncId {
        self.add(FuncKind::Other, Some(name))
    }
    pub(crate) fn new_struct_writer(&mut self, name: IdentId, _: u16, _: bool) -> FuncId {
        self.add(FuncKind::Other, Some(name))
    }
}
