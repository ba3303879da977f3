//! A stand-in for the runtime's SmallVec (same field order: capacity first,
//! then the inline bytes or heap pointer and length). Memory it gives up is
//! filled with junk and never handed out again, so a stale view is seen.
use std::mem::MaybeUninit;
use std::ops::{Deref, DerefMut};

pub const OFFSET_CAPA: usize = 0;
pub const OFFSET_INLINE: usize = 8;
pub const OFFSET_HEAP_PTR: usize = 8;
pub const OFFSET_HEAP_LEN: usize = 16;

pub trait Array {
    type Item;
    const CAP: usize;
}
impl<T, const N: usize> Array for [T; N] {
    type Item = T;
    const CAP: usize = N;
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Heap {
    ptr: *mut u8,
    len: usize,
}
#[repr(C)]
union Data {
    inline: [MaybeUninit<u8>; 24],
    heap: Heap,
}
/// Bytes only. `capacity` is the length while inline, as in the real one.
#[repr(C)]
pub struct SmallVec<A: Array> {
    capacity: usize,
    data: Data,
    p: std::marker::PhantomData<A>,
}

fn fresh(n: usize) -> *mut u8 {
    let mut v = vec![0xA5u8; n];
    let p = v.as_mut_ptr();
    std::mem::forget(v);
    p
}

impl<A: Array<Item = u8>> SmallVec<A> {
    pub fn new() -> Self {
        SmallVec { capacity: 0, data: Data { inline: [MaybeUninit::new(0xA5); 24] }, p: std::marker::PhantomData }
    }
    pub fn with_capacity(n: usize) -> Self {
        let mut v = Self::new();
        v.reserve(n);
        v
    }
    pub fn from_slice(s: &[u8]) -> Self {
        let mut v = Self::with_capacity(s.len());
        v.extend_from_slice(s);
        v
    }
    pub fn from_vec(x: Vec<u8>) -> Self {
        // like the real one: a vector no larger than the inline room is copied
        if x.capacity() <= A::CAP { Self::from_slice(&x) } else {
            let mut v = Self::new();
            let p = fresh(x.capacity());
            unsafe { std::ptr::copy_nonoverlapping(x.as_ptr(), p, x.len()) };
            v.capacity = x.capacity();
            v.data = Data { heap: Heap { ptr: p, len: x.len() } };
            v
        }
    }
    pub fn spilled(&self) -> bool {
        self.capacity > A::CAP
    }
    pub fn capacity(&self) -> usize {
        if self.spilled() { self.capacity } else { A::CAP }
    }
    pub fn len(&self) -> usize {
        if self.spilled() { unsafe { self.data.heap.len } } else { self.capacity }
    }
    pub fn as_ptr(&self) -> *const u8 {
        if self.spilled() { unsafe { self.data.heap.ptr } } else { unsafe { self.data.inline.as_ptr() as *const u8 } }
    }
    pub fn as_mut_ptr(&mut self) -> *mut u8 {
        if self.spilled() { unsafe { self.data.heap.ptr } } else { unsafe { self.data.inline.as_mut_ptr() as *mut u8 } }
    }
    pub unsafe fn set_len(&mut self, n: usize) {
        assert!(n <= self.capacity());
        if self.spilled() { unsafe { self.data.heap.len = n } } else { self.capacity = n }
    }
    /// Room for `n` more; growing always moves.
    pub fn reserve(&mut self, n: usize) {
        let need = self.len() + n;
        if need <= self.capacity() {
            return;
        }
        let cap = need.next_power_of_two().max(A::CAP + 1);
        let p = fresh(cap);
        let len = self.len();
        unsafe {
            std::ptr::copy_nonoverlapping(self.as_ptr(), p, len);
            self.release();
        }
        self.capacity = cap;
        self.data = Data { heap: Heap { ptr: p, len } };
    }
    unsafe fn release(&mut self) {
        if self.spilled() {
            unsafe { std::ptr::write_bytes(self.data.heap.ptr, 0xDD, self.capacity) };
        }
    }
    pub fn extend_from_slice(&mut self, s: &[u8]) {
        let s = s.to_vec();
        self.reserve(s.len());
        let n = self.len();
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.as_mut_ptr().add(n), s.len());
            self.set_len(n + s.len());
        }
    }
    pub fn push(&mut self, b: u8) {
        self.extend_from_slice(&[b]);
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.len() {
            unsafe { self.set_len(n) };
        }
    }
    pub fn resize(&mut self, n: usize, b: u8) {
        while self.len() < n {
            self.push(b);
        }
        self.truncate(n);
    }
    pub fn clear(&mut self) {
        self.truncate(0);
    }
    pub fn into_vec(self) -> Vec<u8> {
        self.to_vec()
    }
}
impl<A: Array> Drop for SmallVec<A> {
    fn drop(&mut self) {
        if self.capacity > A::CAP {
            unsafe { std::ptr::write_bytes(self.data.heap.ptr, 0xDD, self.capacity) };
        }
    }
}
impl<A: Array<Item = u8>> Deref for SmallVec<A> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.as_ptr(), self.len()) }
    }
}
impl<A: Array<Item = u8>> DerefMut for SmallVec<A> {
    fn deref_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.as_mut_ptr(), self.len()) }
    }
}
impl<A: Array<Item = u8>> Clone for SmallVec<A> {
    fn clone(&self) -> Self {
        Self::from_slice(self)
    }
}
impl<A: Array<Item = u8>> Default for SmallVec<A> {
    fn default() -> Self {
        Self::new()
    }
}
impl<A: Array<Item = u8>> Extend<u8> for SmallVec<A> {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, it: I) {
        for b in it {
            self.push(b);
        }
    }
}
