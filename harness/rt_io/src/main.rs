//! Drives the runtime's IO streams over descriptors whose read(2), write(2)
//! and lseek(2) are answered by this program: every call follows a plan of
//! short counts, interruptions, refusals and failures. One abstract byte of a
//! history stands for `unit` equal bytes, so that the same histories also
//! cross the 8 KiB buffers.
#![allow(dead_code, unused_imports)]
use common::*;
use std::collections::VecDeque;
use std::io::Write as _;
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

pub mod codegen {
    pub mod signal_table {
        pub static PENDING_SIGNALS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    }
}
use codegen::signal_table::PENDING_SIGNALS;

pub mod value {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Encoding {
        Utf8,
    }
}

pub mod shim {
    #[derive(Debug, Clone, PartialEq)]
    pub enum MonorubyErr {
        Signal,
        WouldBlock,
        Other(String),
    }
    impl MonorubyErr {
        pub fn signal_interrupt() -> Self {
            Self::Signal
        }
        pub fn would_block_interrupt() -> Self {
            Self::WouldBlock
        }
        pub fn is_signal_interrupt(&self) -> bool {
            *self == Self::Signal
        }
        pub fn is_would_block_interrupt(&self) -> bool {
            *self == Self::WouldBlock
        }
        pub fn ioerr(s: impl ToString) -> Self {
            Self::Other(s.to_string())
        }
        pub fn runtimeerr(s: impl ToString) -> Self {
            Self::Other(s.to_string())
        }
        pub fn argumenterr(s: impl ToString) -> Self {
            Self::Other(s.to_string())
        }
        pub fn errno_plain(_: &Store, e: &std::io::Error) -> Self {
            Self::Other(e.to_string())
        }
        pub fn from_io_err(_: &Store, e: &std::io::Error, s: impl ToString) -> Self {
            Self::Other(format!("{e}{}", s.to_string()))
        }
        pub fn errno_with_msg(_: &Store, e: &std::io::Error, s: impl ToString) -> Self {
            Self::Other(format!("{e}{}", s.to_string()))
        }
    }
    pub struct Store;
    #[derive(Debug)]
    pub struct RValue;
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Value;
    impl Value {
        pub fn mark(&self, _: &mut alloc::Allocator<RValue>) {}
    }
    pub mod alloc {
        pub struct Allocator<T>(std::marker::PhantomData<T>);
        pub trait GC<T> {
            fn mark(&self, alloc: &mut Allocator<T>);
        }
    }
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
}

#[path = "/repo/monoruby/src/value/rvalue"]
pub mod rvalue {
    pub use crate::shim::*;
    pub mod io;
    pub fn stdio(which: &str) -> io::IoInner {
        match which {
            "stdin" => io::IoInner::stdin(),
            "stdout" => io::IoInner::stdout(),
            _ => io::IoInner::stderr(),
        }
    }
    pub fn file(f: std::fs::File, readable: bool, writable: bool) -> io::IoInner {
        io::IoInner::file(f, "f".to_string(), None, readable, writable)
    }
    pub fn socket(f: std::fs::File) -> io::IoInner {
        io::IoInner::socket(f, "s".to_string())
    }
}
use rvalue::io::{IoInner, NonblockRead, NonblockWrite};
use shim::*;

// ---------------------------------------------------------------------
// descriptors answered here
// ---------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    /// at most this many bytes
    Cap(usize),
    /// interrupted; with or without a signal left for the interpreter
    Intr(bool),
    Again,
    Fail(i32),
}
#[derive(Default)]
struct Fd {
    rfd: i32,
    wfd: i32,
    seekable: bool,
    /// file contents, or the bytes a stream will deliver
    data: Vec<u8>,
    off: usize,
    /// bytes a stream received
    sent: Vec<u8>,
    taken: usize,
    plan_r: VecDeque<Out>,
    plan_w: VecDeque<Out>,
}
/// calls refused for the moment, calls failed for good
static REFUSED: AtomicI64 = AtomicI64::new(0);
static FAILED: AtomicI64 = AtomicI64::new(0);
static mut FDS: Option<Fd> = None;
fn fds() -> &'static mut Option<Fd> {
    unsafe { &mut *std::ptr::addr_of_mut!(FDS) }
}
fn errno(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}
fn next(plan: &mut VecDeque<Out>) -> std::result::Result<usize, isize> {
    let next = plan.pop_front();
    match next {
        Some(Out::Intr(_) | Out::Again) => REFUSED.fetch_add(1, SeqCst),
        Some(Out::Fail(_)) => FAILED.fetch_add(1, SeqCst),
        _ => 0,
    };
    match next {
        None => Ok(usize::MAX),
        Some(Out::Cap(n)) => Ok(n),
        Some(Out::Intr(sig)) => {
            if sig {
                PENDING_SIGNALS.store(1, SeqCst);
            }
            Err(errno(libc::EINTR))
        }
        Some(Out::Again) => Err(errno(libc::EAGAIN)),
        Some(Out::Fail(e)) => Err(errno(e)),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if let Some(v) = fds()
        && fd == v.rfd
    {
        let cap = match next(&mut v.plan_r) {
            Ok(c) => c,
            Err(e) => return e,
        };
        let at = v.off.min(v.data.len());
        let k = n.min(cap).min(v.data.len() - at);
        unsafe { std::ptr::copy_nonoverlapping(v.data[at..].as_ptr(), p, k) };
        v.off += k;
        return k as isize;
    }
    unsafe { libc::syscall(libc::SYS_read, fd, p, n) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if let Some(v) = fds()
        && fd == v.wfd
    {
        let cap = match next(&mut v.plan_w) {
            Ok(c) => c,
            Err(e) => return e,
        };
        let k = n.min(cap);
        let b = unsafe { std::slice::from_raw_parts(p, k) };
        v.taken += k;
        if v.seekable {
            if v.data.len() < v.off + k {
                v.data.resize(v.off + k, 0);
            }
            v.data[v.off..v.off + k].copy_from_slice(b);
            v.off += k;
        } else {
            v.sent.extend_from_slice(b);
        }
        return k as isize;
    }
    unsafe { libc::syscall(libc::SYS_write, fd, p, n) as isize }
}
fn do_seek(fd: i32, o: i64, whence: i32) -> i64 {
    if let Some(v) = fds()
        && (fd == v.rfd || fd == v.wfd)
    {
        if !v.seekable {
            return errno(libc::ESPIPE) as i64;
        }
        let base = match whence {
            0 => 0,
            1 => v.off as i64,
            _ => v.data.len() as i64,
        };
        if base + o < 0 {
            return errno(libc::EINVAL) as i64;
        }
        v.off = (base + o) as usize;
        return v.off as i64;
    }
    unsafe { libc::syscall(libc::SYS_lseek, fd, o, whence) as i64 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: i32, o: i64, whence: i32) -> i64 {
    do_seek(fd, o, whence)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek(fd: i32, o: i64, whence: i32) -> i64 {
    do_seek(fd, o, whence)
}

// ---------------------------------------------------------------------
// one history
// ---------------------------------------------------------------------
struct W {
    io: Option<IoInner>,
    unit: usize,
    kind: &'static str,
}
const SEPS: [&[u8]; 4] = [b"", b"\n", b"ab", b"aab"];

fn blow(v: &[i64], u: usize) -> Vec<u8> {
    v.iter().flat_map(|b| std::iter::repeat_n(*b as u8, u)).collect()
}
/// back to abstract bytes; None if the bytes do not come in whole units
fn shrink(v: &[u8], u: usize) -> Option<Vec<i64>> {
    if v.len() % u != 0 {
        return None;
    }
    v.chunks(u).map(|c| c.iter().all(|b| *b == c[0]).then_some(c[0] as i64)).collect()
}

impl W {
    fn new(kind: &'static str, data: &[i64], unit: usize) -> W {
        let mut v = Fd { data: blow(data, unit), seekable: matches!(kind, "file" | "append" | "rfile" | "wfile"), ..Fd::default() };
        let mem = || unsafe { libc::memfd_create(c"io".as_ptr(), 0) };
        let io = match kind {
            "file" | "rfile" | "wfile" => {
                let fd = mem();
                (v.rfd, v.wfd) = (fd, fd);
                rvalue::file(unsafe { std::fs::File::from_raw_fd(fd) }, kind != "wfile", kind != "rfile")
            }
            // the two ends of separate pipes, opened from raw descriptors
            "rpipe" | "wpipe" => {
                let fd = mem();
                (v.rfd, v.wfd) = (fd, fd);
                IoInner::from_raw_fd_autoclose(fd, "p".into(), false, kind == "rpipe", kind == "wpipe", true)
            }
            "sock" => {
                let fd = mem();
                (v.rfd, v.wfd) = (fd, fd);
                rvalue::socket(unsafe { std::fs::File::from_raw_fd(fd) })
            }
            "popen" => {
                let c = std::process::Command::new("/bin/true")
                    .stdin(std::process::Stdio::piped())
                    .stdout(std::process::Stdio::piped())
                    .spawn()
                    .unwrap();
                v.rfd = c.stdout.as_ref().unwrap().as_raw_fd();
                v.wfd = c.stdin.as_ref().unwrap().as_raw_fd();
                IoInner::popen(c)
            }
            _ => {
                let k = ["stdin", "stdout", "stderr"].iter().position(|k| *k == kind).unwrap() as i32;
                (v.rfd, v.wfd) = (k, k);
                let mut io = rvalue::stdio(kind);
                io.set_sync(kind == "stderr");
                io
            }
        };
        *fds() = Some(v);
        W { io: Some(io), unit, kind }
    }

    fn bytes(&self, tag: &'static str, v: &[u8]) -> Res {
        match shrink(v, self.unit) {
            Some(x) => (tag, x),
            None => ("ragged", vec![v.len() as i64]),
        }
    }
    fn fail<T>(&self, e: MonorubyErr) -> std::result::Result<T, Res> {
        Err(match e {
            MonorubyErr::Signal | MonorubyErr::WouldBlock => ("intr", vec![]),
            _ => ("err", vec![]),
        })
    }
    fn count(&self, n: usize) -> i64 {
        if n % self.unit == 0 { (n / self.unit) as i64 } else { -1 }
    }

    /// One attempt. `done` is what earlier attempts of a write have got rid of.
    fn attempt(&mut self, op: &Op, done: &mut usize) -> Res {
        let u = self.unit;
        let x = &op.1;
        let Some(io) = self.io.as_mut() else { return ("err", vec![]) };
        let n = x.first().map_or(0, |n| n.max(&0).to_owned() as usize * u);
        let r: std::result::Result<Res, Res> = match op.0 {
            "read" => io.read(Some(n)).map_or_else(|e| self.fail(e), |v| Ok(self.bytes("ok", &v))),
            "readb" => io.read_buffered(Some(n)).map_or_else(|e| self.fail(e), |v| Ok(self.bytes("ok", &v))),
            "readall" => io.read(None).map_or_else(|e| self.fail(e), |v| Ok(self.bytes("ok", &v))),
            "sysread" => io.sysread(n).map_or_else(|e| self.fail(e), |v| Ok(self.bytes("ok", &v))),
            "partial" => io.readpartial(n).map_or_else(|e| self.fail(e), |v| Ok(self.bytes("ok", &v))),
            "readnb" => io.read_nonblock(n, &Store).map_or_else(
                |e| self.fail(e),
                |v| {
                    Ok(match v {
                        NonblockRead::Data(v) => self.bytes("ok", &v),
                        NonblockRead::WouldBlock => ("block", vec![]),
                        NonblockRead::Eof => ("eof", vec![]),
                    })
                },
            ),
            "line" => {
                let sep = if x[0] < 0 { None } else { Some(SEPS[x[0] as usize]) };
                let lim = if x[1] < 0 { None } else { Some(x[1] as usize * u) };
                io.getline(sep, lim, x[2] != 0).map_or_else(
                    |e| self.fail(e),
                    |v| Ok(v.map_or(("nil", vec![]), |v| self.bytes("ok", &v))),
                )
            }
            "unget" => io.unget(&blow(x, u)).map_or_else(|e| self.fail(e), |_| Ok(("ok", vec![]))),
            "pos" => {
                let pb = io.pushback_len() as i64;
                match io.seek(0, 1) {
                    Ok(p) if p as i64 >= pb && (p as i64 - pb) % u as i64 == 0 => Ok(("ok", vec![(p as i64 - pb) / u as i64])),
                    Ok(_) => Ok(("odd", vec![])),
                    Err(e) if e.raw_os_error() == Some(libc::EINTR) => Ok(("intr", vec![])),
                    Err(_) => Ok(("err", vec![])),
                }
            }
            "seek" => match io.seek(x[0] * u as i64, x[1] as i32) {
                Ok(p) => Ok(("ok", vec![self.count(p as usize)])),
                Err(e) if e.raw_os_error() == Some(libc::EINTR) => Ok(("intr", vec![])),
                Err(_) => Ok(("err", vec![])),
            },
            "buffered" => Ok(("ok", vec![io.has_buffered_data() as i64])),
            "write" => {
                let b = blow(x, u);
                let r = io.write(&b, done, &Store);
                let d = self.count(*done);
                Ok(match r {
                    Ok(()) => ("ok", vec![d]),
                    Err(MonorubyErr::Signal | MonorubyErr::WouldBlock) => ("intr", vec![d]),
                    Err(_) => ("err", vec![d]),
                })
            }
            "writenb" => io.write_nonblock(&blow(x, u), &Store).map_or_else(
                |e| self.fail(e),
                |v| {
                    Ok(match v {
                        NonblockWrite::Written(n) => ("ok", vec![self.count(n)]),
                        NonblockWrite::WouldBlock => ("block", vec![]),
                    })
                },
            ),
            "flush" => io.flush(&Store).map_or_else(|e| self.fail(e), |_| Ok(("ok", vec![]))),
            "sync" => {
                io.set_sync(x[0] != 0);
                Ok(("ok", vec![io.sync() as i64]))
            }
            "close" => io.close(&Store).map_or_else(|e| self.fail(e), |_| Ok(("ok", vec![]))),
            "closew" => {
                io.popen_close_write();
                Ok(("ok", vec![]))
            }
            "drop" => {
                self.io = None;
                Ok(("ok", vec![]))
            }
            _ => unreachable!(),
        };
        r.unwrap_or_else(|r| r)
    }

    /// Run one operation; `retry` repeats it until it is not interrupted, as
    /// the callers in the interpreter do.
    fn ev(&mut self, op: Op, retry: bool) -> String {
        about_to(|| op_json(&op));
        let mut done = 0;
        let mut tries = 0;
        REFUSED.store(PENDING_SIGNALS.load(SeqCst) as i64, SeqCst);
        FAILED.store(0, SeqCst);
        let r = loop {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.attempt(&op, &mut done))).unwrap_or(("panic", vec![]));
            // the interpreter reaches a poll point
            PENDING_SIGNALS.store(0, SeqCst);
            tries += 1;
            if r.0 != "intr" || !retry || tries > 200 {
                break r;
            }
        };
        let v = fds().as_mut().unwrap();
        let seen = shrink(if v.seekable { &v.data } else { &v.sent }, self.unit).unwrap_or(vec![-1]);
        let taken = if v.taken % self.unit == 0 { (v.taken / self.unit) as i64 } else { -1 };
        let odd = [REFUSED.load(SeqCst), FAILED.load(SeqCst)];
        format!("{{\"o\":{},\"r\":{},\"a\":{},\"c\":{},\"x\":{}}}", op_json(&op), res_json(&r), taken, ints(&seen), ints(&odd))
    }

    /// Leave nothing behind in the process-wide standard buffers.
    fn end(mut self) {
        let v = fds().as_mut().unwrap();
        v.plan_r.clear();
        v.plan_w.clear();
        if let Some(io) = self.io.as_mut() {
            if matches!(self.kind, "stdout" | "stderr") {
                let _ = io.flush(&Store);
            }
            if self.kind == "stdin" {
                let _ = io.read(None);
            }
        }
        drop(self.io.take());
        *fds() = None;
    }
}

const KINDS: [&str; 10] = ["file", "rfile", "wfile", "rpipe", "wpipe", "sock", "popen", "stdin", "stdout", "stderr"];
fn reads(k: &str) -> bool {
    matches!(k, "file" | "rfile" | "rpipe" | "sock" | "popen" | "stdin")
}
fn writes(k: &str) -> bool {
    matches!(k, "file" | "wfile" | "wpipe" | "sock" | "popen" | "stdout" | "stderr")
}

fn text(g: &mut Rng, n: usize) -> Vec<i64> {
    let mut v = vec![];
    while v.len() < n {
        match g.below(12) {
            0..=4 => v.push(97),
            5 | 6 => v.push(98),
            7..=9 => v.push(10),
            10 => v.extend([0xc3, 0xa9]),
            _ => v.extend(if g.chance(1, 2) { vec![0xe3, 0x81, 0x82] } else { vec![0xf0, 0x9f, 0x98, 0x80] }),
        }
    }
    v
}

fn plan(g: &mut Rng, unit: usize, hot: u64, errs: bool, wr: bool) -> VecDeque<Out> {
    let mut p = VecDeque::new();
    for _ in 0..g.below(6) {
        p.push_back(if g.chance(hot, 10) {
            match g.below(if errs { 7 } else { 6 }) {
                0 => Out::Intr(false),
                1 | 2 => Out::Intr(true),
                3..=5 => Out::Again,
                _ => Out::Fail(if wr { *g.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]) } else { libc::EIO }),
            }
        } else {
            Out::Cap(g.range(1, if unit == 1 { 4 } else { 12 }) as usize * unit)
        });
    }
    p
}

fn op(g: &mut Rng, k: &str, unit: usize, bias: u64) -> Op {
    let line = |g: &mut Rng| -> Op {
        if unit == 1 {
            ("line", vec![g.range(-1, 3), if g.chance(1, 2) { -1 } else { g.range(0, 6) }, g.below(2) as i64])
        } else {
            ("line", vec![-1, if g.chance(1, 3) { -1 } else { g.range(0, 12) }, 0])
        }
    };
    let amount = |g: &mut Rng| g.range(1, if unit == 1 { 6 } else { 14 });
    loop {
        let c = g.below(24);
        let rd = c < 12;
        if bias == 0 && !rd && c < 22 && reads(k) && g.chance(1, 2) {
            continue;
        }
        match c {
            0 | 1 if reads(k) => return ("read", vec![amount(g)]),
            2 | 3 if reads(k) => return ("readb", vec![amount(g)]),
            4 if reads(k) && g.chance(1, 3) => return ("readall", vec![]),
            5 | 6 if reads(k) => return line(g),
            7 if reads(k) => return ("sysread", vec![amount(g)]),
            8 if reads(k) => return ("partial", vec![amount(g)]),
            9 if reads(k) => return ("readnb", vec![amount(g)]),
            10 if reads(k) => return ("unget", (0..g.range(1, 3)).map(|_| *g.pick(&[97, 10, 120, 121])).collect()),
            11 => return ("pos", vec![]),
            // moving by nothing is how the position is asked for: see "pos"
            12..=14 => match (g.range(-4, 9), g.range(0, 2)) {
                (0, 1) => {}
                (n, w) => return ("seek", vec![n, w]),
            },
            15..=18 if writes(k) => return ("write", (0..g.range(1, if unit == 1 { 4 } else { 10 })).map(|_| g.range(100, 119)).collect()),
            19 if writes(k) => return ("writenb", (0..g.range(1, 4)).map(|_| g.range(100, 119)).collect()),
            20 if writes(k) => return ("flush", vec![]),
            21 if writes(k) => return ("sync", vec![g.below(2) as i64]),
            22 if k == "popen" && g.chance(1, 8) => return ("closew", vec![]),
            22 if reads(k) => return ("buffered", vec![]),
            23 if g.chance(1, 12) && !k.starts_with("std") => return (if k == "popen" || g.chance(1, 2) { "close" } else { "drop" }, vec![]),
            _ => {}
        }
    }
}

fn main() {
    let a = Args::new();
    quiet_panics();
    watchdog(20);
    crash_report();
    let mut out = a.out();
    let mut g = Rng::new(a.num("seed", 1));
    match a.mode() {
        "gen" => {
            let kinds: Vec<&'static str> = KINDS.into_iter().filter(|k| a.get("kinds").is_none_or(|l| l.split(',').any(|x| x == *k))).collect();
            for _ in 0..a.num("n", 100) {
                let k = *g.pick(&kinds);
                let unit = if g.chance(1, 4) { 1024 } else { 1 };
                let n0 = g.below(if unit == 1 { 16 } else { 24 }) as usize;
                let data = if k == "wfile" { vec![] } else if unit == 1 { text(&mut g, n0) } else { (0..n0).map(|i| 33 + i as i64).collect() };
                let mut w = W::new(k, &data, unit);
                let (hot, bias) = (g.below(6), g.below(2));
                // failing reads end a history: what they keep is not promised
                let mut evs = vec![];
                for _ in 0..a.num("len", 20) {
                    let o = op(&mut g, k, unit, bias);
                    let v = fds().as_mut().unwrap();
                    v.plan_r = plan(&mut g, unit, hot, false, false);
                    v.plan_w = plan(&mut g, unit, hot, hot > 2, true);
                    if g.chance(hot, 60) {
                        PENDING_SIGNALS.store(1, SeqCst);
                    }
                    // skipped blank lines are not given back, so paragraphs are always asked for again
                    let para = o.0 == "line" && o.1[0] == 0;
                    let retry = para || g.chance(3, 4);
                    let last = matches!(o.0, "drop" | "close" | "closew");
                    if o.0 == "drop" || o.0 == "closew" {
                        let v = fds().as_mut().unwrap();
                        v.plan_w.retain(|p| matches!(p, Out::Cap(_) | Out::Intr(false)));
                        PENDING_SIGNALS.store(0, SeqCst);
                    }
                    evs.push(w.ev(o, retry));
                    if last {
                        break;
                    }
                }
                writeln!(out, "{{\"k\":\"{k}\",\"d\":{},\"ev\":[{}]}}", ints(&data), evs.join(",")).unwrap();
                w.end();
            }
        }
        // every short sequence of operations under every one of a few ways the system calls answer
        "small" => {
            let k: &'static str = KINDS.into_iter().find(|k| Some(*k) == a.get("kind")).unwrap();
            let unit = a.num("unit", 1) as usize;
            let mut ops: Vec<Op> = vec![];
            if reads(k) {
                ops.extend([("read", vec![2]), ("readb", vec![1]), ("partial", vec![3]), ("readnb", vec![2]), ("sysread", vec![1]), ("unget", vec![120])]);
                if unit == 1 {
                    ops.extend([("line", vec![1, -1, 0]), ("line", vec![0, -1, 0]), ("line", vec![2, 3, 1])]);
                } else {
                    ops.push(("readall", vec![]));
                }
            }
            if writes(k) {
                ops.extend([("write", vec![101, 102]), ("flush", vec![]), ("sync", vec![1]), ("writenb", vec![103])]);
                if unit > 1 {
                    ops.push(("write", vec![104, 105, 106, 107, 108, 109]));
                }
            }
            if k.ends_with("file") {
                ops.extend([("seek", vec![1, 0]), ("seek", vec![-1, 1]), ("pos", vec![])]);
            }
            let len = a.num("len", 3) as u32;
            let plans: [(Vec<Out>, bool); 4] = [
                (vec![], true),
                ([Out::Cap(unit), Out::Again].repeat(12), true),
                ([Out::Cap(2 * unit), Out::Intr(true), Out::Cap(unit), Out::Intr(false)].repeat(6), true),
                ([Out::Cap(unit), Out::Again].repeat(12), false),
            ];
            let data: Vec<i64> = if k == "wfile" { vec![] } else if unit == 1 { vec![97, 98, 10, 10, 10, 97, 0xc3, 0xa9, 97, 98] } else { (40..58).collect() };
            for (plan, retry) in &plans {
                for mut c in 0..ops.len().pow(len) {
                    let mut w = W::new(k, &data, unit);
                    {
                        let v = fds().as_mut().unwrap();
                        v.plan_r = plan.iter().copied().collect();
                        v.plan_w = plan.iter().copied().collect();
                    }
                    let mut evs = vec![];
                    for _ in 0..len {
                        let o = ops[c % ops.len()].clone();
                        c /= ops.len();
                        let para = o.0 == "line" && o.1[0] == 0;
                        evs.push(w.ev(o, *retry || para));
                    }
                    if writes(k) {
                        evs.push(w.ev(("flush", vec![]), true));
                    }
                    if reads(k) {
                        evs.push(w.ev(("readall", vec![]), true));
                    }
                    writeln!(out, "{{\"k\":\"{k}\",\"d\":{},\"ev\":[{}]}}", ints(&data), evs.join(",")).unwrap();
                    w.end();
                }
            }
        }
        _ => std::process::exit(2),
    }
    out.flush().unwrap();
}
