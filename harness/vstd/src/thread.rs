pub use ::std::thread::*;
use crate::ctl;
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;

pub struct JoinHandle<T> {
    t: usize,
    r: Arc<Mutex<Option<::std::thread::Result<T>>>>,
}
impl<T> JoinHandle<T> {
    pub fn is_finished(&self) -> bool {
        ctl::point();
        ctl::is_done(self.t)
    }
    pub fn join(self) -> ::std::thread::Result<T> {
        ctl::point();
        ctl::join(self.t);
        self.r.lock().unwrap().take().unwrap()
    }
}
pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
    ctl::point();
    let r = Arc::new(Mutex::new(None));
    let r2 = r.clone();
    let t = ctl::start(move || {
        let x = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
        *r2.lock().unwrap() = Some(x);
        // returned, but not finished yet
        ctl::point();
    });
    JoinHandle { t, r }
}
#[derive(Debug)]
pub struct Builder(());
impl Builder {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Builder(())
    }
    pub fn name(self, _: String) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(
        self,
        f: F,
    ) -> ::std::io::Result<JoinHandle<T>> {
        Ok(spawn(f))
    }
}
pub fn sleep(d: Duration) {
    if ctl::managed() {
        let at = ctl::clock().saturating_add(d.as_nanos() as u64);
        ctl::block(usize::MAX, Some(at));
    } else {
        ::std::thread::sleep(d)
    }
}
pub fn yield_now() {
    ctl::point();
}
