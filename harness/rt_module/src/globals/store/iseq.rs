//! Instruction sequences: no code, only the tables the class table asks about.
use super::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ISeqId(usize);
impl ISeqId {
    pub(crate) fn new(i: usize) -> Self {
        Self(i)
    }
    pub(crate) fn get(&self) -> usize {
        self.0
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub(crate) enum ISeqHint {
    Normal,
    ConstReturn,
}
#[derive(Debug, Clone)]
pub(crate) struct InlineCacheEntry {
    pub(crate) recv_class: ClassId,
    pub(crate) name: Option<IdentId>,
    pub(crate) func_id: FuncId,
    pub(crate) refinements: RefinementSetId,
}
#[derive(Debug, Clone)]
pub(crate) struct ConstSite {
    pub(crate) id: ConstSiteId,
    pub(crate) names: Vec<IdentId>,
    pub(crate) cache: ConstCache,
}
#[derive(Debug, Clone, Default)]
pub(crate) struct ConstSalvageMap {
    pub(crate) version_word: Option<DestLabel>,
    pub(crate) wildcard: u64,
    pub(crate) name_epochs: Vec<(IdentId, u64)>,
    pub(crate) sites: Vec<ConstSite>,
    pub(crate) stale_defers: u32,
}
#[derive(Debug, Clone)]
pub(crate) enum ConstSalvage {
    Healed(DestLabel),
    Defer,
    Recompile,
}
#[derive(Debug, Clone)]
pub(crate) struct LoopJitInfo {
    pub(crate) class_version_label: DestLabel,
    pub(crate) inline_cache_map: Vec<InlineCacheEntry>,
}
/// A compiled unit: what it was compiled against.
#[derive(Debug, Clone)]
pub(crate) struct JitInfo {
    pub(crate) inline_cache_map: Vec<InlineCacheEntry>,
    pub(crate) const_map: ConstSalvageMap,
    pub(crate) label: DestLabel,
}
#[derive(Debug, Clone)]
pub struct ISeqInfo {
    func_id: FuncId,
    pub(crate) loc: Loc,
    pub(crate) sourceinfo: SourceInfoRef,
    pub(crate) sourcemap: Vec<Loc>,
    pub(crate) is_eval: bool,
    pub(crate) singleton_classdef: bool,
    pub(crate) module_classdef: bool,
    pub(crate) in_singleton_lexical: bool,
    pub(crate) lexical_context: Vec<ClassId>,
    pub(crate) instance_eval_class: Option<ClassId>,
    pub(crate) outer: Option<ISeqId>,
    pub(crate) hint: ISeqHint,
    pub(crate) refinements: Option<RefinementSetId>,
    pub(crate) callsite_map: HashMap<BcIndex, CallSiteId>,
    mother: (ISeqId, usize),
    name: Option<IdentId>,
    pub(crate) jit: HashMap<ClassId, JitInfo>,
    pub(crate) loops: HashMap<(ClassId, BcIndex), LoopJitInfo>,
    pub(crate) bops: Vec<(ClassId, IdentId)>,
    pub(crate) evicted: bool,
}
impl alloc::GC<RValue> for ISeqInfo {
    fn mark(&self, _: &mut alloc::Allocator<RValue>) {}
}
impl ISeqInfo {
    pub(crate) fn new_method(f: FuncId, id: ISeqId, name: Option<IdentId>, _: ParamsInfo, loc: Loc, sourceinfo: SourceInfoRef) -> Self {
        Self {
            func_id: f,
            loc,
            sourceinfo,
            sourcemap: vec![],
            is_eval: false,
            singleton_classdef: false,
            module_classdef: false,
            in_singleton_lexical: false,
            lexical_context: vec![],
            instance_eval_class: None,
            outer: None,
            hint: ISeqHint::Normal,
            refinements: None,
            callsite_map: HashMap::default(),
            mother: (id, 0),
            name,
            jit: HashMap::default(),
            loops: HashMap::default(),
            bops: vec![],
            evicted: false,
        }
    }
    pub(crate) fn new_block(f: FuncId, mother: (ISeqId, usize), outer: ISeqId, p: ParamsInfo, loc: Loc, s: SourceInfoRef) -> Self {
        let mut i = Self::new_method(f, mother.0, None, p, loc, s);
        i.mother = mother;
        i.outer = Some(outer);
        i
    }
    pub(crate) fn func_id(&self) -> FuncId {
        self.func_id
    }
    pub(crate) fn mother(&self) -> (ISeqId, usize) {
        self.mother
    }
    pub(crate) fn name(&self) -> String {
        self.name.map_or(String::new(), |n| n.to_string())
    }
    pub(crate) fn contains_pc(&self, _: BytecodePtr) -> bool {
        false
    }
    pub(crate) fn get_pc_index(&self, _: Option<BytecodePtr>) -> BcIndex {
        crate::bytecodegen::BcIndex(0)
    }
    pub(crate) fn total_reg_num(&self) -> usize {
        0
    }
    pub(crate) fn get_top_pc(&self) -> BytecodePtr {
        BytecodePtr(0)
    }
    pub(crate) fn get_cache_map(&self, c: ClassId) -> Option<&Vec<InlineCacheEntry>> {
        self.jit.get(&c).map(|j| &j.inline_cache_map)
    }
    pub(crate) fn get_const_map_mut(&mut self, c: ClassId) -> Option<&mut ConstSalvageMap> {
        self.jit.get_mut(&c).map(|j| &mut j.const_map)
    }
    pub(crate) fn get_loop_const_map_mut(&mut self, _: ClassId, _: BcIndex) -> Option<&mut ConstSalvageMap> {
        None
    }
    pub(crate) fn get_loop_jit_info(&self, c: ClassId, i: BcIndex) -> Option<&LoopJitInfo> {
        self.loops.get(&(c, i))
    }
    pub(crate) fn get_jit_class_version(&self, c: ClassId) -> Option<DestLabel> {
        self.jit.get(&c).map(|j| j.label.clone())
    }
    pub(crate) fn depends_on_bop(&self, c: ClassId, name: IdentId) -> bool {
        self.bops.contains(&(c, name))
    }
    pub(crate) fn evict_jit_code(&mut self) {
        self.evicted = true;
        self.jit.clear();
        self.loops.clear();
    }
}
