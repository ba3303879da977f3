//! One managed thread runs at a time. Executions happen in forked children,
//! so that statics and thread-locals start fresh; the parent walks the tree
//! of scheduling choices depth first or draws them at random.
use ::std::cell::Cell;
use ::std::io::{Read, Write};
use ::std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// until `touch(key)`, or the time if there is one
    Blocked(usize, Option<u64>),
    Done,
}
struct Th {
    st: St,
    cv: Arc<Condvar>,
    timed_out: bool,
}
struct Inner {
    active: bool,
    th: Vec<Th>,
    cur: usize,
    plan: Plan,
    log: Vec<(u16, u16)>,
    clock: u64,
    ticks: u32,
    preempt: u32,
    steps: u32,
    out: Vec<String>,
    pipe: i32,
}
/// Where choices come from.
#[derive(Clone)]
pub enum Plan {
    Prefix(Vec<u16>),
    Random(u64),
}
static S: Mutex<Inner> = Mutex::new(Inner {
    active: false,
    th: Vec::new(),
    cur: 0,
    plan: Plan::Prefix(Vec::new()),
    log: Vec::new(),
    clock: 1_000_000_000,
    ticks: 0,
    preempt: 0,
    steps: 0,
    out: Vec::new(),
    pipe: -1,
});
/// waits for a time, and for everybody else to have nothing to do
const IDLE: usize = usize::MAX - 1;
const NONE: usize = usize::MAX;
thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}
fn me() -> usize {
    ME.try_with(|m| m.get()).unwrap_or(NONE)
}
pub fn managed() -> bool {
    me() != NONE
}
/// This managed thread's number (0 is the driver).
pub fn id() -> usize {
    me()
}
/// Run without scheduling points.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = f();
    QUIET.with(|q| q.set(q.get() - 1));
    r
}
fn lock() -> MutexGuard<'static, Inner> {
    S.lock().unwrap_or_else(|e| e.into_inner())
}
pub const MAX_STEPS: u32 = 20_000;

impl Inner {
    fn choose(&mut self, n: usize) -> usize {
        let c = match &mut self.plan {
            Plan::Prefix(p) => {
                let i = self.log.len();
                if i < p.len() { p[i] as usize } else { 0 }
            }
            Plan::Random(s) => {
                *s = s.wrapping_add(0x9E3779B97F4A7C15);
                let mut z = *s;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                ((z ^ (z >> 31)) % n as u64) as usize
            }
        };
        let c = c.min(n - 1);
        self.log.push((c as u16, n as u16));
        c
    }
    fn finish(&mut self, how: &str) -> ! {
        let mut s = String::new();
        s.push_str(how);
        s.push('\n');
        for (c, n) in &self.log {
            s.push_str(&format!("{c},{n} "));
        }
        s.push('\n');
        for l in &self.out {
            s.push_str(l);
            s.push('\n');
        }
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let r = unsafe { libc::write(self.pipe, b[i..].as_ptr() as _, b.len() - i) };
            if r <= 0 {
                break;
            }
            i += r as usize;
        }
        unsafe { libc::_exit(0) }
    }
    fn fire(&mut self, t: usize) {
        if let St::Blocked(_, Some(at)) = self.th[t].st {
            self.clock = self.clock.max(at);
            self.ticks -= 1;
            self.th[t].timed_out = true;
            self.th[t].st = St::Ready;
        }
    }
    /// Pick who runs next, the current thread first among the candidates.
    fn next(&mut self, me: usize) -> usize {
        self.steps += 1;
        if self.steps > MAX_STEPS {
            self.finish("steps");
        }
        let here = me != NONE && self.th[me].st == St::Ready;
        if here && self.preempt == 0 {
            return me;
        }
        let mut en: Vec<usize> = Vec::new();
        if here {
            en.push(me);
        }
        for (i, t) in self.th.iter().enumerate() {
            if i != me && t.st == St::Ready {
                en.push(i);
            }
        }
        // the earliest sleeper may be woken at any time
        let timed = |t: &Th| match t.st {
            St::Blocked(_, Some(at)) => Some(at),
            _ => None,
        };
        let mut sl: Vec<(u64, usize)> = self.th.iter().enumerate().filter_map(|(i, t)| timed(t).map(|a| (a, i))).collect();
        sl.sort();
        if self.ticks > 0
            && let Some((_, i)) = sl.iter().find(|x| !matches!(self.th[x.1].st, St::Blocked(IDLE, _)))
            && (!en.is_empty() || sl[0].1 == *i)
        {
            en.push(*i);
        }
        if en.is_empty() {
            // nobody can run: somebody waits for exactly that, or it is over
            let idle = self.th.iter().any(|t| matches!(t.st, St::Blocked(IDLE, _)));
            match sl.first() {
                Some((_, i)) if idle => {
                    self.ticks += 1;
                    en.push(*i);
                }
                Some(_) => self.finish("ticks"),
                None => self.finish("stuck"),
            }
        }
        let c = if en.len() == 1 { 0 } else { self.choose(en.len()) };
        let t = en[c];
        if here && t != me {
            self.preempt -= 1;
        }
        self.fire(t);
        t
    }
}
fn hand_over(mut g: MutexGuard<'static, Inner>, me: usize) {
    let t = g.next(me);
    if t == me {
        return;
    }
    g.cur = t;
    g.th[t].cv.notify_one();
    let cv = g.th[me].cv.clone();
    while g.cur != me {
        g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}
/// A scheduling point.
pub fn point() {
    let m = me();
    if m == NONE || QUIET.with(|q| q.get()) > 0 {
        return;
    }
    let g = lock();
    if g.active {
        hand_over(g, m);
    }
}
/// Sleep until `touch(key)`; false if the time came first.
pub fn block(key: usize, until: Option<u64>) -> bool {
    let m = me();
    let mut g = lock();
    g.th[m].st = St::Blocked(key, until);
    g.th[m].timed_out = false;
    hand_over(g, m);
    !lock().th[m].timed_out
}
/// Let the others run until the clock has advanced by `ns` and none can go on.
pub fn settle(ns: u64) {
    let at = clock() + ns;
    block(IDLE, Some(at));
}
/// Make everyone waiting for `key` ready.
pub fn touch(key: usize) {
    if me() == NONE {
        return;
    }
    let mut g = lock();
    for t in g.th.iter_mut() {
        if matches!(t.st, St::Blocked(k, _) if k == key) {
            t.st = St::Ready;
        }
    }
}
/// Make one (chosen) waiter ready.
pub fn touch_one(key: usize) {
    let mut g = lock();
    let w: Vec<usize> = (0..g.th.len()).filter(|i| matches!(g.th[*i].st, St::Blocked(k, _) if k == key)).collect();
    if !w.is_empty() {
        let c = if w.len() == 1 { 0 } else { g.choose(w.len()) };
        let i = w[c];
        g.th[i].st = St::Ready;
    }
}
/// A choice made by the explorer, for the driver's own use.
pub fn pick(n: usize) -> usize {
    if n <= 1 { 0 } else { lock().choose(n) }
}
pub fn clock() -> u64 {
    lock().clock
}
pub fn advance(ns: u64) {
    lock().clock += ns;
}
/// Append a line to the recorded history.
pub fn note(s: String) {
    lock().out.push(s);
}
/// End the execution now, with what was recorded.
pub fn finish(how: &str) -> ! {
    lock().finish(how)
}
pub fn is_done(t: usize) -> bool {
    lock().th[t].st == St::Done
}
/// Start a managed thread; returns its number.
pub fn start(f: impl FnOnce() + Send + 'static) -> usize {
    let mut g = lock();
    let n = g.th.len();
    g.th.push(Th { st: St::Ready, cv: Arc::new(Condvar::new()), timed_out: false });
    drop(g);
    ::std::thread::Builder::new()
        .stack_size(256 << 10)
        .spawn(move || {
            ME.with(|m| m.set(n));
            let mut g = lock();
            let cv = g.th[n].cv.clone();
            while g.cur != n {
                g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
            }
            drop(g);
            let _ = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
            // thread-local destructors are not interleaved
            ME.with(|m| m.set(NONE));
            let mut g = lock();
            g.th[n].st = St::Done;
            let key = end_key(n);
            for t in g.th.iter_mut() {
                if matches!(t.st, St::Blocked(k, _) if k == key) {
                    t.st = St::Ready;
                }
            }
            let t = g.next(NONE);
            g.cur = t;
            g.th[t].cv.notify_one();
        })
        .expect("thread");
    n
}
pub fn end_key(t: usize) -> usize {
    0x1000_0000_0000_0000 + t
}
/// Wait for a managed thread to end.
pub fn join(t: usize) {
    while !is_done(t) {
        block(end_key(t), None);
    }
}

pub struct Limits {
    /// switches away from a thread that could have gone on
    pub preempt: u32,
    /// sleeps that may run out
    pub ticks: u32,
    /// executions
    pub execs: u64,
}
pub struct Execution {
    pub how: String,
    pub choices: Vec<(u16, u16)>,
    pub out: Vec<String>,
}
fn one(plan: Plan, lim: &Limits, body: &dyn Fn()) -> Execution {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(20);
            {
                let mut g = lock();
                g.active = true;
                g.th.push(Th { st: St::Ready, cv: Arc::new(Condvar::new()), timed_out: false });
                g.plan = plan;
                g.ticks = lim.ticks;
                g.preempt = lim.preempt;
                g.pipe = fds[1];
            }
            ME.with(|m| m.set(0));
            let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(body));
            lock().finish(if r.is_ok() { "end" } else { "panic" });
        }
        libc::close(fds[1]);
        let mut f = <::std::fs::File as ::std::os::fd::FromRawFd>::from_raw_fd(fds[0]);
        let mut s = String::new();
        f.read_to_string(&mut s).expect("child output");
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            eprintln!("an execution died of signal {sig}");
            let _ = ::std::io::stderr().flush();
            if sig == libc::SIGALRM {
                libc::_exit(99);
            }
            libc::signal(sig, libc::SIG_DFL);
            libc::raise(sig);
        }
        let mut it = s.split('\n');
        let how = it.next().unwrap_or("").to_string();
        let choices = it
            .next()
            .unwrap_or("")
            .split_whitespace()
            .map(|x| {
                let (a, b) = x.split_once(',').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            })
            .collect();
        Execution { how, choices, out: it.filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() }
    }
}
/// Every execution within the limits, depth first; true if there are no more.
pub fn all(lim: &Limits, body: &dyn Fn(), sink: &mut dyn FnMut(Execution)) -> bool {
    let mut prefix: Vec<u16> = vec![];
    for _ in 0..lim.execs {
        let e = one(Plan::Prefix(prefix.clone()), lim, body);
        let mut c = e.choices.clone();
        sink(e);
        while let Some((a, n)) = c.last().copied() {
            if a + 1 < n {
                break;
            }
            c.pop();
        }
        match c.last_mut() {
            None => return true,
            Some(x) => x.0 += 1,
        }
        prefix = c.iter().map(|x| x.0).collect();
    }
    false
}
/// Executions with random choices.
pub fn some(lim: &Limits, seed: u64, body: &dyn Fn(), sink: &mut dyn FnMut(Execution)) {
    for k in 0..lim.execs {
        sink(one(Plan::Random(seed.wrapping_mul(0x5851F42D4C957F2D) ^ k.wrapping_mul(0x14057B7EF767814F)), lim, body));
    }
}
