//! A 64-byte stand-in for the runtime's object: a header that is either the
//! free-list link or the object's flags (as in the runtime), its identity,
//! and four references.  Releases are recorded.
use crate::alloc::{Allocator, GC, GCBox, RGENGC_OLD_AGE};
use std::cell::RefCell;
use std::ptr::NonNull;

const LIVE: u64 = 1;
const OLD: u64 = 1 << 5;
const ARMED: u64 = 1 << 6;
const SHADY: u64 = 1 << 4;
const TY: u64 = 0x5a << 16;

#[repr(C)]
pub struct RValue {
    head: u64,
    pub node: u32,
    pub member: u32,
    pub kids: [*mut RValue; 4],
    canary: [u64; 2],
}

thread_local! {
    pub static RELEASED: RefCell<Vec<(u32, u32)>> = const { RefCell::new(Vec::new()) };
}

impl RValue {
    pub fn new(node: u32, member: u32, promotable: bool) -> Self {
        let k = ((node as u64) << 32) | member as u64;
        RValue {
            head: LIVE | TY | if promotable { 0 } else { SHADY },
            node,
            member,
            kids: [std::ptr::null_mut(); 4],
            canary: [!k, k ^ 0xa5a5_5a5a_1234_4321],
        }
    }
    pub fn intact(&self, node: u32, member: u32) -> bool {
        let k = ((node as u64) << 32) | member as u64;
        self.is_live()
            && self.node == node
            && self.member == member
            && self.canary == [!k, k ^ 0xa5a5_5a5a_1234_4321]
    }
    fn is_live(&self) -> bool {
        self.head & LIVE != 0 && self.head & TY == TY
    }
    fn age(&self) -> u8 {
        (self.head >> 8) as u8
    }
    /// the runtime's write barrier, called after the store
    pub fn write_barrier(&mut self, child: *mut RValue, alloc: &mut Allocator<RValue>) {
        if self.head & ARMED != 0 && !child.is_null() {
            self.enter_remembered();
            alloc.remember(NonNull::from(&*self));
        }
    }
    pub fn ty(&self) -> u64 {
        self.head
    }
    fn refs(&self) -> impl Iterator<Item = &RValue> {
        self.kids.iter().filter(|p| !p.is_null()).map(|p| unsafe { &**p })
    }
}

impl PartialEq for RValue {
    fn eq(&self, o: &Self) -> bool {
        std::ptr::eq(self, o)
    }
}

impl GC<RValue> for RValue {
    fn mark(&self, alloc: &mut Allocator<RValue>) {
        if !self.is_live() {
            // what the runtime answers with an abort: a reference to a
            // reclaimed object was followed
            panic!("dead object reached");
        }
        if alloc.gc_check_and_mark(self) {
            return;
        }
        alloc.scan_children(self);
    }
}

impl GCBox for RValue {
    fn free(&mut self) {
        if !self.is_live() {
            return;
        }
        RELEASED.with(|r| r.borrow_mut().push((self.node, self.member)));
        self.set_next_none();
        self.kids = [std::ptr::null_mut(); 4];
        self.canary = [0; 2];
    }
    fn next(&self) -> Option<NonNull<RValue>> {
        assert!(self.head & 1 != 1);
        NonNull::new(self.head as *mut RValue)
    }
    fn set_next_none(&mut self) {
        self.head = 0;
    }
    fn set_next(&mut self, next: *mut RValue) {
        self.head = NonNull::new(next).unwrap().as_ptr() as u64;
    }
    fn new_invalid() -> Self {
        RValue {
            head: 0,
            node: 0,
            member: 0,
            kids: [std::ptr::null_mut(); 4],
            canary: [0; 2],
        }
    }
    fn mark_children(&self, alloc: &mut Allocator<RValue>) {
        for k in self.refs() {
            k.mark(alloc);
        }
    }
    fn is_promotable(&self) -> bool {
        self.head & SHADY == 0
    }
    fn promote_to_old(&mut self) {
        self.head |= OLD;
    }
    fn age_and_check_promote(&mut self) -> bool {
        let age = self.age().saturating_add(1);
        self.head = (self.head & !0xff00) | ((age as u64) << 8);
        age >= RGENGC_OLD_AGE
    }
    fn arm_barrier(&mut self) {
        self.head |= ARMED;
    }
    fn enter_remembered(&mut self) {
        self.head &= !ARMED;
    }
    fn young_child_exists(&self, alloc: &Allocator<RValue>) -> bool {
        self.refs().any(|k| !alloc.is_old(k))
    }
}
