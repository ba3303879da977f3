pub use ::std::sync::*;
use crate::ctl;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as real;

pub mod atomic {
    pub use ::std::sync::atomic::*;
    use crate::ctl::point;
    use ::std::sync::atomic as real;
    macro_rules! common {
        ($n:ident, $t:ty) => {
            #[repr(transparent)]
            #[derive(Debug, Default)]
            pub struct $n(real::$n);
            impl ::std::ops::Deref for $n {
                type Target = real::$n;
                fn deref(&self) -> &real::$n {
                    point();
                    &self.0
                }
            }
            impl From<$t> for $n {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl $n {
                pub const fn new(v: $t) -> Self {
                    Self(real::$n::new(v))
                }
                pub const unsafe fn from_ptr<'a>(p: *mut $t) -> &'a $n {
                    unsafe { &*(p as *const $n) }
                }
                pub const fn as_ptr(&self) -> *mut $t {
                    self.0.as_ptr()
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
        };
    }
    // every other operation goes through Deref, which is a scheduling point;
    // fetch_update is a loop of its own steps
    macro_rules! update {
        ($n:ident, $t:ty) => {
            impl $n {
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    s: Ordering,
                    f: Ordering,
                    mut g: F,
                ) -> Result<$t, $t> {
                    let mut cur = self.load(f);
                    while let Some(n) = g(cur) {
                        match self.compare_exchange(cur, n, s, f) {
                            Ok(x) => return Ok(x),
                            Err(x) => cur = x,
                        }
                    }
                    Err(cur)
                }
            }
        };
    }
    macro_rules! ints { ($($n:ident $t:ty),*) => { $( common!($n, $t); update!($n, $t); )* } }
    ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
          AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize, AtomicBool bool);
}

pub struct Mutex<T: ?Sized>(real::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized> {
    g: Option<real::MutexGuard<'a, T>>,
    m: &'a Mutex<T>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(real::Mutex::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn key(&self) -> usize {
        &self.0 as *const _ as *const () as usize
    }
    fn wrap<'a>(&'a self, g: real::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { g: Some(g), m: self }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        ctl::point();
        self.acquire()
    }
    fn acquire(&self) -> LockResult<MutexGuard<'_, T>> {
        loop {
            match self.0.try_lock() {
                Ok(g) => return Ok(self.wrap(g)),
                Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new(self.wrap(p.into_inner()))),
                Err(TryLockError::WouldBlock) if ctl::managed() => {
                    ctl::block(self.key(), None);
                }
                Err(TryLockError::WouldBlock) => {
                    return match self.0.lock() {
                        Ok(g) => Ok(self.wrap(g)),
                        Err(p) => Err(PoisonError::new(self.wrap(p.into_inner()))),
                    };
                }
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        ctl::point();
        match self.0.try_lock() {
            Ok(g) => Ok(self.wrap(g)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(p)) => {
                Err(TryLockError::Poisoned(PoisonError::new(self.wrap(p.into_inner()))))
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ::std::fmt::Debug + ?Sized> ::std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if self.g.take().is_some() {
            ctl::touch(self.m.key());
        }
    }
}

pub struct RwLock<T: ?Sized>(real::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized> {
    g: Option<real::RwLockReadGuard<'a, T>>,
    key: usize,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    g: Option<real::RwLockWriteGuard<'a, T>>,
    key: usize,
}
macro_rules! rw {
    ($m:ident, $try:ident, $guard:ident) => {
        impl<T: ?Sized> RwLock<T> {
            pub fn $m(&self) -> LockResult<$guard<'_, T>> {
                ctl::point();
                let key = &self.0 as *const _ as *const () as usize;
                loop {
                    match self.0.$try() {
                        Ok(g) => return Ok($guard { g: Some(g), key }),
                        Err(TryLockError::Poisoned(p)) => {
                            return Err(PoisonError::new($guard { g: Some(p.into_inner()), key }));
                        }
                        Err(TryLockError::WouldBlock) if ctl::managed() => {
                            ctl::block(key, None);
                        }
                        Err(TryLockError::WouldBlock) => {
                            return match self.0.$m() {
                                Ok(g) => Ok($guard { g: Some(g), key }),
                                Err(p) => Err(PoisonError::new($guard { g: Some(p.into_inner()), key })),
                            };
                        }
                    }
                }
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                ctl::point();
                let key = &self.0 as *const _ as *const () as usize;
                match self.0.$try() {
                    Ok(g) => Ok($guard { g: Some(g), key }),
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                    Err(TryLockError::Poisoned(p)) => {
                        Err(TryLockError::Poisoned(PoisonError::new($guard { g: Some(p.into_inner()), key })))
                    }
                }
            }
        }
        impl<T: ?Sized> Deref for $guard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.g.as_ref().unwrap()
            }
        }
        impl<T: ?Sized> Drop for $guard<'_, T> {
            fn drop(&mut self) {
                self.g = None;
                ctl::touch(self.key);
            }
        }
    };
}
rw!(read, try_read, RwLockReadGuard);
rw!(write, try_write, RwLockWriteGuard);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(real::RwLock::new(t))
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}

#[derive(Default)]
pub struct Condvar(#[allow(dead_code)] u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar(0)
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    pub fn wait<'a, T: ?Sized>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        g.g = None;
        ctl::touch(m.key());
        ctl::block(self.key(), None);
        m.acquire()
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T: ?Sized>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: ::std::time::Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.m;
        g.g = None;
        ctl::touch(m.key());
        let woken = ctl::block(self.key(), Some(ctl::clock().saturating_add(d.as_nanos() as u64)));
        match m.acquire() {
            Ok(g) => Ok((g, WaitTimeoutResult(!woken))),
            Err(p) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(!woken)))),
        }
    }
    pub fn notify_one(&self) {
        ctl::point();
        ctl::touch_one(self.key());
    }
    pub fn notify_all(&self) {
        ctl::point();
        ctl::touch(self.key());
    }
}

#[derive(Debug)]
pub struct OnceLock<T>(real::OnceLock<T>);
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock(real::OnceLock::new())
    }
    pub fn get(&self) -> Option<&T> {
        ctl::point();
        self.0.get()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        ctl::point();
        self.0.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        ctl::point();
        ctl::quiet(|| self.0.get_or_init(f))
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
pub struct LazyLock<T, F = fn() -> T>(real::LazyLock<T, F>);
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock(real::LazyLock::new(f))
    }
    pub fn force(this: &Self) -> &T {
        ctl::quiet(|| real::LazyLock::force(&this.0))
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}
