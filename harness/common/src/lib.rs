//! Support shared by the harness binaries: a seeded generator, the history
//! writer and the watchdog. Nothing here judges a result; histories are
//! judged by TLC.
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// index drawn from integer weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
}

pub fn ints(xs: &[i64]) -> String {
    let mut s = String::with_capacity(xs.len() * 3 + 2);
    s.push('[');
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}

/// A result: tag plus integers.
pub type Res = (&'static str, Vec<i64>);
pub fn res_json(r: &Res) -> String {
    format!("[\"{}\",{}]", r.0, ints(&r.1))
}

/// An operation: name plus integers.
pub type Op = (&'static str, Vec<i64>);
pub fn op_json(o: &Op) -> String {
    format!("[\"{}\",{}]", o.0, ints(&o.1))
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

/// Name what is about to run; the watchdog reports it if it never returns.
pub fn about_to(what: impl FnOnce() -> String) {
    PROGRESS.fetch_add(1, Ordering::SeqCst);
    if let Ok(mut c) = CURRENT.lock() {
        *c = what();
    }
}

/// Start the watchdog: if nothing happens for `secs` seconds the process
/// writes the pending operation to stderr and exits with status 99.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Ordering::SeqCst);
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = PROGRESS.load(Ordering::SeqCst);
            if now == last {
                idle += 1;
            } else {
                idle = 0;
                last = now;
            }
            if idle >= secs {
                let c = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                eprintln!("HANG: no progress for {secs}s in: {c}");
                std::process::exit(99);
            }
        }
    });
}

/// On a fatal signal, print the pending operation and die of that signal.
pub fn crash_report() {
    extern "C" fn on(sig: i32) {
        unsafe {
            extern "C" {
                fn write(fd: i32, p: *const u8, n: usize) -> isize;
                fn signal(sig: i32, h: usize) -> usize;
                fn raise(sig: i32) -> i32;
            }
            let m = b"CRASH in: ";
            write(2, m.as_ptr(), m.len());
            if let Ok(c) = CURRENT.try_lock() {
                write(2, c.as_ptr(), c.len());
            }
            write(2, b"\n".as_ptr(), 1);
            signal(sig, 0);
            raise(sig);
        }
    }
    extern "C" {
        fn signal(sig: i32, h: usize) -> usize;
    }
    unsafe {
        for s in [4, 6, 7, 8, 11] {
            signal(s, on as *const () as usize);
        }
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// `--name value` arguments.
pub struct Args(Vec<String>);
impl Args {
    pub fn new() -> Self {
        Args(std::env::args().collect())
    }
    pub fn mode(&self) -> &str {
        self.0.get(1).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn get(&self, name: &str) -> Option<&str> {
        let n = format!("--{name}");
        self.0
            .iter()
            .position(|x| *x == n)
            .and_then(|i| self.0.get(i + 1))
            .map(|s| s.as_str())
    }
    pub fn num(&self, name: &str, default: u64) -> u64 {
        self.get(name)
            .map(|s| s.parse().expect("number"))
            .unwrap_or(default)
    }
    pub fn out(&self) -> Box<dyn Write> {
        match self.get("out") {
            Some(p) => Box::new(std::io::BufWriter::new(
                std::fs::File::create(p).expect("create output"),
            )),
            None => Box::new(std::io::BufWriter::new(std::io::stdout())),
        }
    }
}
impl Default for Args {
    fn default() -> Self {
        Self::new()
    }
}

/// Parse `name i i i` (the replay format).
pub fn parse_op(s: &str, names: &[&'static str]) -> Op {
    let mut it = s.split_whitespace();
    let n = it.next().expect("op name");
    let name = names
        .iter()
        .find(|x| **x == n)
        .unwrap_or_else(|| panic!("unknown op {n}"));
    (name, it.map(|x| x.parse().expect("int")).collect())
}
