//! libc with its waiting calls on the controlled scheduler's clock. Reads
//! and writes are the real ones, on descriptors the harness owns; waiting
//! lets the clock advance to the next planned event, or lets other managed
//! threads run.
pub use ::libc::*;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};
use vstd::ctl;

/// planned deliveries: at this time one byte arrives through this descriptor
static PLAN: Mutex<Vec<(u64, i32)>> = Mutex::new(Vec::new());
/// whether other managed threads may make descriptors ready
static OTHERS: AtomicBool = AtomicBool::new(false);
const FDS: usize = 0x2000_0000_0000_0000;

pub fn plan(at: u64, fd: i32) {
    PLAN.lock().unwrap().push((at, fd));
}
pub fn others(on: bool) {
    OTHERS.store(on, Ordering::SeqCst);
}
fn next_event() -> Option<u64> {
    PLAN.lock().unwrap().iter().map(|x| x.0).min()
}
/// Move the clock to `t`, delivering what is planned until then.
pub fn advance_to(t: u64) {
    let mut p = PLAN.lock().unwrap();
    for (at, fd) in p.iter() {
        if *at <= t {
            let b = 1u8;
            unsafe { ::libc::write(*fd, &b as *const u8 as _, 1) };
        }
    }
    p.retain(|x| x.0 > t);
    let c = ctl::clock();
    if t > c {
        ctl::advance(t - c);
    }
}
/// # Safety
/// as poll(2)
pub unsafe fn poll(p: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    ctl::point();
    let end = if timeout < 0 { None } else { Some(ctl::clock() + timeout as u64 * 1_000_000) };
    loop {
        let r = unsafe { ::libc::poll(p, n, 0) };
        let now = ctl::clock();
        if r != 0 || end.is_some_and(|e| now >= e) {
            return r;
        }
        let ev = next_event();
        match (ev, end) {
            (Some(t), e) if e.is_none_or(|e| t <= e) => advance_to(t.max(now)),
            (_, e) if OTHERS.load(Ordering::SeqCst) => {
                ctl::block(FDS, e);
            }
            (_, Some(e)) => advance_to(e),
            _ => ctl::finish("stuck"),
        }
    }
}
/// # Safety
/// as nanosleep(2)
pub unsafe fn nanosleep(t: *const timespec, _: *mut timespec) -> c_int {
    let d = unsafe { (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64 };
    if OTHERS.load(Ordering::SeqCst) {
        ctl::block(usize::MAX, Some(ctl::clock() + d));
    } else {
        advance_to(ctl::clock() + d);
    }
    0
}
/// # Safety
/// as write(2)
pub unsafe fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    ctl::point();
    let r = unsafe { ::libc::write(fd, b, n) };
    ctl::touch(FDS);
    r
}
/// # Safety
/// as read(2)
pub unsafe fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    ctl::point();
    unsafe { ::libc::read(fd, b, n) }
}
