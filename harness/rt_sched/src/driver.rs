//! Programs of green threads: every thread draws its next scheduler call as
//! it goes, and calls, returns, starts and ends are recorded with the clock.
use crate::native_pool::{self, NativeOp};
use crate::scheduler as sch;
use crate::value::rvalue::{InterruptTiming, PendingInterrupt, ThreadInner, ThreadState};
use crate::*;
use common::*;
use std::cell::RefCell;
use std::ctl;
use std::io::Write;
use std::time::{Duration, Instant};

const MAXT: usize = 5;
const MS: u64 = 1_000_000;
const ZERO: u64 = 1_000_000_000;

struct World {
    rng: Rng,
    profile: usize,
    threads: Vec<Value>,
    pipes: Vec<(i32, i32)>,
    no: i64,
}
thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().unwrap()))
}
fn now() -> u64 {
    (ctl::clock() - ZERO) / MS
}
fn thread(t: i64) -> Value {
    world(|w| w.threads[t as usize - 1])
}
fn number(v: Value) -> i64 {
    world(|w| w.threads.iter().position(|x| *x == v).map_or(-1, |p| p as i64 + 1))
}
fn event(k: &str, t: usize, o: &Op, r: &Res) {
    ctl::note(format!("{{\"k\":\"{k}\",\"t\":{t},\"n\":{},\"o\":{},\"r\":{}}}", now(), op_json(o), res_json(r)));
}
fn err_res(e: &MonorubyErr) -> Res {
    match e.kind() {
        MonorubyErrKind::Throw(..) => ("kill", vec![]),
        MonorubyErrKind::SystemExit(_) => ("exit", vec![]),
        MonorubyErrKind::Fatal => ("fatal", vec![]),
        MonorubyErrKind::Other(c) => ("err", vec![*c as i64, e.no]),
        _ => ("other", vec![]),
    }
}
fn ms(d: i64) -> Option<Duration> {
    (d >= 0).then(|| Duration::from_millis(d as u64))
}
fn timing(k: i64) -> InterruptTiming {
    [InterruptTiming::Immediate, InterruptTiming::OnBlocking, InterruptTiming::Never][k as usize]
}
fn ok() -> Result<Vec<i64>> {
    Ok(vec![])
}
fn apply(e: &mut Executor, g: &mut Globals, op: &Op) -> Result<Vec<i64>> {
    let x = &op.1;
    let cur = sch::current_thread(e);
    match op.0 {
        "pass" => sch::pass(e, g).map(|_| vec![]),
        "sleep" => sch::sleep(e, g, ms(x[0])).map(|d| vec![d.as_millis() as i64]),
        "wakeup" => Ok(vec![sch::wakeup(thread(x[0])) as i64]),
        "wakep" => Ok(vec![sch::wakeup_permit(thread(x[0])) as i64]),
        "join" => sch::join(e, g, thread(x[0]), ms(x[1])).map(|b| vec![b as i64]),
        "spawn" => {
            let v = thread(x[0]);
            if x[1] == 1 {
                ABORT.with(|a| a.borrow_mut().push(v));
            }
            sch::spawn(e, v);
            ok()
        }
        "raise" => {
            let err = MonorubyErr::raised(x[1] as u32, x[2]);
            sch::interrupt(e, g, thread(x[0]), PendingInterrupt::Raise(err)).map(|_| vec![])
        }
        "kill" => sch::interrupt(e, g, thread(x[0]), PendingInterrupt::Kill).map(|_| vec![]),
        // as Thread.handle_interrupt does on entry and exit
        "mask" => {
            let m = x.chunks(2).map(|c| (Value::class(c[0] as u32), timing(c[1]))).collect();
            sch::push_interrupt_mask(e, m);
            sch::deliver_pending_now(e, g, cur, false).map(|_| vec![])
        }
        "unmask" => {
            sch::pop_interrupt_mask(e);
            sch::deliver_pending_now(e, g, cur, false).map(|_| vec![])
        }
        "unint" => {
            sch::set_uninterruptible(cur, true);
            ok()
        }
        "reint" => {
            sch::set_uninterruptible(cur, false);
            sch::deliver_pending_now(e, g, cur, true).map(|_| vec![])
        }
        "wait" => {
            let dl = ms(x[0]).map(|d| Instant::now() + d);
            let fds: Vec<(i32, i16)> =
                x[1..].iter().map(|f| (world(|w| w.pipes[*f as usize - 1].0), libc::POLLIN)).collect();
            sch::wait_fds(e, g, &fds, dl).map(|_| vec![])
        }
        "feed" => {
            let f = world(|w| w.pipes[x[0] as usize - 1].1);
            unsafe { libc::write(f, &1u8 as *const u8 as _, 1) };
            ok()
        }
        "eat" => {
            let f = world(|w| w.pipes[x[0] as usize - 1].0);
            let mut b = [0u8; 64];
            unsafe { while libc::read(f, b.as_mut_ptr() as _, 64) > 0 {} };
            ok()
        }
        "plan" => {
            libc::plan(ctl::clock() + x[1] as u64 * MS, world(|w| w.pipes[x[0] as usize - 1].1));
            ok()
        }
        "work" => {
            libc::advance_to(ctl::clock() + x[0] as u64 * MS);
            ok()
        }
        "terminate" => {
            sch::terminate_all(e, g);
            ok()
        }
        "fork" => {
            sch::fork_child_reset_threads(e);
            ok()
        }
        "list" => Ok(sch::thread_list(e).into_iter().map(number).collect()),
        "me" => Ok(vec![number(cur), number(sch::main_thread(e))]),
        "alive" => Ok(vec![sch::thread_alive_by_id(thread(x[0]).id()) as i64]),
        "other" => Ok(vec![sch::has_other_live_threads() as i64]),
        "oks" => Ok(vec![sch::signal_delivery_ok() as i64, sch::preempt_ok() as i64]),
        "live" => Ok(vec![LIVE.with(|l| l.get()) as i64]),
        "reports" => {
            sch::flush_pending_reports(e, g);
            Ok(vec![REPORTS.with(|l| l.get())])
        }
        "setst" => {
            sch::set_last_status(e, Value::int(x[0]));
            ok()
        }
        "getst" => Ok(sch::last_status(e).iter().map(|v| v.as_int()).collect()),
        "pend" => {
            let f = (x[1] > 0).then(|| Module(x[1] as u32));
            Ok(vec![sch::pending_interrupt_p(&g.store, thread(x[0]), f) as i64])
        }
        "state" => Ok(vec![match thread(x[0]).as_thread_inner().state() {
            ThreadState::Created => 0,
            ThreadState::Runnable => 1,
            ThreadState::Sleeping => 2,
            ThreadState::Joining => 3,
            ThreadState::IoWaiting => 4,
            ThreadState::Dead => 5,
        }]),
        "outcome" => {
            let v = thread(x[0]);
            let i = v.as_thread_inner();
            Ok(match (i.is_dead(), i.result, &i.exception) {
                (false, ..) => vec![0],
                (_, Some(v), None) => vec![1, v.as_int()],
                (_, None, Some(e)) => {
                    let mut r = vec![2];
                    r.extend(err_res(e).1);
                    r
                }
                (_, None, None) => vec![3],
                _ => vec![4],
            })
        }
        _ => unreachable!("{}", op.0),
    }
}
fn step(e: &mut Executor, g: &mut Globals, t: usize, op: &Op) -> Result<()> {
    event("call", t, op, &("", vec![]));
    let r = apply(e, g, op);
    match r {
        Ok(v) => {
            event("ret", t, op, &("ok", v));
            Ok(())
        }
        Err(err) => {
            event("ret", t, op, &err_res(&err));
            Err(err)
        }
    }
}

// pass sleep wake join spawn raise kill mask leave unint wait feed eat plan work query
const PROFILES: [[u32; 16]; 5] = [
    [12, 8, 8, 8, 8, 4, 3, 4, 4, 2, 6, 4, 2, 3, 5, 10], // everything
    [8, 16, 14, 2, 5, 1, 1, 0, 1, 0, 0, 0, 0, 0, 8, 6], // sleeping and waking
    [8, 6, 2, 16, 8, 4, 4, 0, 1, 0, 0, 0, 0, 0, 3, 10], // joining
    [8, 6, 3, 4, 6, 14, 6, 12, 8, 5, 3, 1, 0, 1, 1, 8], // interrupts and masks
    [8, 6, 3, 3, 6, 2, 2, 1, 2, 1, 16, 6, 6, 8, 5, 4],  // descriptors
];
fn draw(t: usize, frames: &[bool]) -> Op {
    let (mut r, p, n) = world(|w| (Rng::new(w.rng.next()), w.profile, w.threads.len() as i64));
    let who = |r: &mut Rng| r.range(1, n);
    let dur = |r: &mut Rng| if r.chance(1, 3) { 0.max(r.range(0, 1)) } else { r.range(1, 12) };
    let lim = |r: &mut Rng| if r.chance(1, 3) { -1 } else { dur(r) };
    if t == 1 && n < 3 && r.chance(2, 3) {
        return ("spawn", vec![n + 1, r.chance(1, 6) as i64]);
    }
    loop {
        return match r.weighted(&PROFILES[p]) {
            0 => ("pass", vec![]),
            1 => ("sleep", vec![if r.chance(1, if t == 1 { 8 } else { 3 }) { -1 } else { dur(&mut r) }]),
            2 => (if r.chance(1, 2) { "wakeup" } else { "wakep" }, vec![who(&mut r)]),
            3 => ("join", vec![who(&mut r), lim(&mut r)]),
            4 if (n as usize) < MAXT => ("spawn", vec![n + 1, r.chance(1, 6) as i64]),
            5 => ("raise", vec![who(&mut r), r.range(1, 4), world(|w| {
                w.no += 1;
                w.no
            })]),
            6 => {
                let u = who(&mut r);
                if u == 1 && !r.chance(1, 8) {
                    continue;
                }
                ("kill", vec![u])
            }
            7 if frames.len() < 3 => {
                let mut v = vec![];
                for _ in 0..r.range(1, 2) {
                    v.extend([r.range(1, 4), r.range(0, 2)]);
                }
                ("mask", v)
            }
            8 if !frames.is_empty() => (if frames[frames.len() - 1] { "unmask" } else { "reint" }, vec![]),
            9 if frames.len() < 3 => ("unint", vec![]),
            10 => {
                let mut v = vec![if t == 1 && r.chance(1, 2) { dur(&mut r) } else { lim(&mut r) }];
                let f = r.range(1, 2);
                v.push(f);
                if r.chance(1, 4) {
                    v.push(3 - f);
                }
                ("wait", v)
            }
            11 => ("feed", vec![r.range(1, 2)]),
            12 => ("eat", vec![r.range(1, 2)]),
            13 => ("plan", vec![r.range(1, 2), r.range(1, 10)]),
            14 if t != 1 || p != 2 || r.chance(2, 3) => ("work", vec![r.range(1, 8)]),
            14 => ("fork", vec![]),
            15 => match r.below(10) {
                0 => ("list", vec![]),
                1 => ("alive", vec![who(&mut r)]),
                2 => ("other", vec![]),
                3 => ("oks", vec![]),
                4 => ("live", vec![]),
                5 => ("pend", vec![who(&mut r), r.range(0, 4)]),
                6 => ("state", vec![who(&mut r)]),
                7 => ("outcome", vec![who(&mut r)]),
                8 => (*r.pick(&["me", "getst", "reports"]), vec![]),
                _ => ("setst", vec![r.range(1, 9)]),
            },
            _ => continue,
        };
    }
}
/// Every program of a few calls from these, main and one or two others;
/// `x` stands for the other thread.
const X: i64 = -9;
type Menu = &'static [(&'static str, &'static [i64])];
const MENUS: [Menu; 5] = [
    &[("pass", &[]), ("sleep", &[-1]), ("sleep", &[1]), ("wakeup", &[X]), ("wakep", &[X])],
    &[("join", &[X, -1]), ("join", &[X, 1]), ("pass", &[]), ("kill", &[X]), ("raise", &[X, 1, 1]), ("sleep", &[1])],
    &[("mask", &[1, 2]), ("mask", &[1, 1]), ("leave", &[]), ("raise", &[X, 1, 1]), ("kill", &[X]), ("pass", &[]), ("sleep", &[1])],
    &[("wait", &[-1, 1]), ("wait", &[2, 1]), ("feed", &[1]), ("plan", &[1, 1]), ("eat", &[1]), ("sleep", &[3])],
    &[("unint", &[]), ("leave", &[]), ("raise", &[X, 1, 1]), ("kill", &[X]), ("wait", &[1, 1]), ("join", &[X, -1]), ("sleep", &[1])],
];
struct Small {
    menu: usize,
    left: usize,
    /// what main does first
    first: usize,
    spawn: i64,
}
thread_local! {
    static SMALL: RefCell<Option<Small>> = const { RefCell::new(None) };
}
fn draw_small(t: usize, frames: &[bool]) -> Option<Op> {
    let n = world(|w| w.threads.len() as i64);
    SMALL.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().unwrap();
        if t == 1 && n <= s.spawn {
            return Some(("spawn", vec![n + 1, 0]));
        }
        if s.left == 0 {
            return None;
        }
        s.left -= 1;
        let m = MENUS[s.menu];
        // the last choice: no further call
        let k = if s.first < usize::MAX { std::mem::replace(&mut s.first, usize::MAX) } else { ctl::pick(m.len() + 1) };
        let (name, x) = m.get(k)?;
        let other = if t == 1 { 2 } else if n > 2 && t == 2 && matches!(*name, "join") { 3 } else { 1 };
        let x = x.iter().map(|v| if *v == X { other } else { *v }).collect();
        Some(match *name {
            "leave" if frames.is_empty() => ("pass", vec![]),
            "leave" => (if frames[frames.len() - 1] { "unmask" } else { "reint" }, vec![]),
            _ => (*name, x),
        })
    })
}
fn small_world() -> bool {
    SMALL.with(|s| s.borrow().is_some())
}
fn small(menu: usize, left: usize, first: usize, spawn: i64) {
    SMALL.with(|s| *s.borrow_mut() = Some(Small { menu, left, first, spawn }));
    program(1, 0);
}

/// Up to `n` calls; an error ends the thread or is rescued.
fn live(e: &mut Executor, g: &mut Globals, t: usize, n: i64) -> Result<Value> {
    let mut frames: Vec<bool> = vec![];
    let mut out = Ok(Value::int(t as i64 * 10));
    for _ in 0..n {
        let op = if small_world() {
            match draw_small(t, &frames) {
                Some(op) => op,
                None => break,
            }
        } else {
            draw(t, &frames)
        };
        match op.0 {
            "mask" => frames.push(true),
            "unint" => frames.push(false),
            "unmask" | "reint" => {
                frames.pop();
            }
            "spawn" => {
                let v = Value::new_thread(THREAD_CLASS, ThreadInner::new(Proc(op.1[0] as usize), vec![]));
                world(|w| w.threads.push(v));
            }
            _ => {}
        }
        if let Err(err) = step(e, g, t, &op) {
            let raise = matches!(err.kind(), MonorubyErrKind::Other(_));
            if !raise || (t > 1 && (small_world() || world(|w| w.rng.chance(1, 2)))) {
                out = Err(err);
                break;
            }
        }
    }
    // leaving the open sections, as the interpreter's ensure does
    while let Some(m) = frames.pop() {
        if t == 1 && matches!(&out, Err(e) if !matches!(e.kind(), MonorubyErrKind::Other(_))) {
            break;
        }
        if let Err(err) = step(e, g, t, &(if m { "unmask" } else { "reint" }, vec![])) {
            out = Err(err);
        }
    }
    out
}
pub fn body(e: &mut Executor, g: &mut Globals, t: usize) -> Result<Value> {
    if world(|w| w.profile) == NATIVE {
        return native_body(e, g, t);
    }
    event("start", t, &("", vec![]), &("", vec![]));
    let n = if small_world() { 99 } else { world(|w| w.rng.range(0, 9)) };
    let r = live(e, g, t, n);
    let res = match &r {
        Ok(v) => ("ok", vec![v.as_int()]),
        Err(e) => err_res(e),
    };
    event("end", t, &("", vec![]), &res);
    r
}
fn pipes(n: usize) -> Vec<(i32, i32)> {
    (0..n)
        .map(|_| {
            let mut p = [0i32; 2];
            unsafe {
                assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
                libc::fcntl(p[0], libc::F_SETFL, libc::O_NONBLOCK);
            }
            (p[0], p[1])
        })
        .collect()
}
fn program(seed: u64, profile: usize) {
    let mut e = Executor::default();
    let mut g = Globals { store: Store };
    let m = sch::main_thread(&mut e);
    let mut rng = Rng::new(seed);
    let n = if small_world() { 99 } else { rng.range(6, 26) };
    WORLD.with(|w| *w.borrow_mut() = Some(World { rng, profile, threads: vec![m], pipes: pipes(2), no: 0 }));
    if let Err(e) = live(&mut e, &mut g, 1, n)
        && !matches!(e.kind(), MonorubyErrKind::Other(_))
    {
        return;
    }
    if !small_world() && world(|w| w.rng.chance(1, 3)) && step(&mut e, &mut g, 1, &("terminate", vec![])).is_err() {
        return;
    }
    for o in ["list", "live", "reports"] {
        let _ = step(&mut e, &mut g, 1, &(o, vec![]));
    }
    for t in 1..=world(|w| w.threads.len()) {
        let _ = step(&mut e, &mut g, 1, &("outcome", vec![t as i64]));
    }
}

const NATIVE: usize = 99;
/// What a background call does: some steps, then its own result.
pub fn background(k: i64) -> i64 {
    for _ in 0..k % 3 {
        ctl::point();
    }
    k
}
/// Thread `t`'s calls: background ones, passes, interrupts of others.
fn native_prog(seed: u64, t: usize, n: usize, calls: i64, harm: bool) -> Vec<Op> {
    let mut r = Rng::new(seed ^ (t as u64) << 40);
    let mut v = vec![];
    for i in 0..r.range(1, calls) {
        let u = r.range(1, n as i64);
        let k = t as i64 * 100 + i * 3 + r.range(0, 2);
        match r.below(8) {
            0 => v.push(("pass", vec![])),
            1 if harm && u > 1 => v.push(("kill", vec![u])),
            2 if harm => v.push(("raise", vec![u, 1, k])),
            _ => v.push(("native", vec![k])),
        }
    }
    v
}
fn native_live(e: &mut Executor, g: &mut Globals, t: usize, prog: &[Op]) -> Result<Value> {
    for op in prog {
        event("call", t, op, &("", vec![]));
        let r = if op.0 == "native" {
            let c = crate::builtins::fiddle::FfiWorkerCall(op.1[0]);
            native_pool::run_blocking(e, g, NativeOp::Ffi(c)).map(|c| vec![c.ret])
        } else {
            apply(e, g, op)
        };
        let res = match &r {
            Ok(v) => ("ok", v.clone()),
            Err(e) => err_res(e),
        };
        event("ret", t, op, &res);
        if let Err(err) = r
            && !matches!(err.kind(), MonorubyErrKind::Other(_))
        {
            return Err(err);
        }
    }
    Ok(Value::int(t as i64))
}
thread_local! {
    static PROGS: RefCell<Vec<Vec<Op>>> = const { RefCell::new(Vec::new()) };
}
fn native_body(e: &mut Executor, g: &mut Globals, t: usize) -> Result<Value> {
    let p = PROGS.with(|p| p.borrow()[t - 1].clone());
    event("start", t, &("", vec![]), &("", vec![]));
    let r = native_live(e, g, t, &p);
    event("end", t, &("", vec![]), &("ok", vec![]));
    r
}
fn native(progs: &[Vec<Op>]) {
    libc::others(true);
    let mut e = Executor::default();
    let mut g = Globals { store: Store };
    let mut threads = vec![sch::main_thread(&mut e)];
    for t in 2..=progs.len() {
        threads.push(Value::new_thread(THREAD_CLASS, ThreadInner::new(Proc(t), vec![])));
    }
    let n = threads.len();
    WORLD.with(|w| *w.borrow_mut() = Some(World { rng: Rng::new(0), profile: NATIVE, threads, pipes: vec![], no: 0 }));
    PROGS.with(|p| *p.borrow_mut() = progs.to_vec());
    let mut main: Vec<Op> = (2..=n).map(|t| ("spawn", vec![t as i64, 0])).collect();
    main.extend(progs[0].iter().cloned());
    let mut out = native_live(&mut e, &mut g, 1, &main);
    for t in 2..=n {
        // an interrupt of main may cut a join short
        loop {
            match native_live(&mut e, &mut g, 1, &[("join", vec![t as i64, -1])]) {
                Err(err) => {
                    out = Err(err);
                    break;
                }
                Ok(_) if threads_dead(t) => break,
                _ => {}
            }
        }
    }
    if out.is_err() {
        return;
    }
    // let the workers of abandoned calls finish, then look for leftovers
    ctl::settle(1);
    let left = (1..200u64).filter(|k| native_pool::try_take(*k).is_some()).count() as i64;
    event("ret", 1, &("left", vec![]), &("left", vec![left]));
}
fn threads_dead(t: usize) -> bool {
    thread(t as i64).as_thread_inner().is_dead()
}
fn native_main(a: &Args) {
    let mut rng = Rng::new(a.num("seed", 1));
    let mut out = a.out();
    let lim = ctl::Limits { preempt: a.num("preempt", 2) as u32, ticks: 0, execs: a.num("execs", 500) };
    for _ in 0..a.num("n", 10) {
        let s = rng.next();
        let n = rng.range(1, 3) as usize + 1;
        let harm = rng.chance(1, 2);
        let progs: Vec<Vec<Op>> = (1..=n).map(|t| native_prog(s, t, n, a.num("calls", 3) as i64, harm)).collect();
        let mut seen = std::collections::HashSet::new();
        let mut sink = |x: ctl::Execution| {
            let l = format!("{{\"how\":\"{}\",\"n\":{n},\"ev\":[{}]}}", x.how, x.out.join(","));
            if seen.insert(l.clone()) {
                writeln!(out, "{l}").unwrap();
            }
        };
        if a.num("random", 0) == 1 {
            let lim = ctl::Limits { preempt: 1000, ticks: 0, execs: lim.execs };
            ctl::some(&lim, s, &|| native(&progs), &mut sink);
        } else {
            ctl::all(&lim, &|| native(&progs), &mut sink);
        }
    }
}

pub fn main() {
    let a = Args::new();
    quiet_panics();
    if a.mode() == "native" {
        return native_main(&a);
    }
    if a.mode() == "small" {
        let (menu, left, spawn) = (a.num("menu", 0) as usize, a.num("calls", 4) as usize, a.num("spawn", 1) as i64);
        let mut out = a.out();
        let (shards, k) = (a.num("shards", 1) as usize, a.num("shard", 0) as usize);
        for first in (0..MENUS[menu].len()).filter(|f| f % shards == k) {
            let lim = ctl::Limits { preempt: 0, ticks: 0, execs: a.num("execs", 1_000_000) };
            let done = ctl::all(&lim, &|| small(menu, left, first, spawn), &mut |x| {
                writeln!(out, "{{\"how\":\"{}\",\"ev\":[{}]}}", x.how, x.out.join(",")).unwrap();
            });
            if !done {
                eprintln!("not all programs");
            }
        }
        return;
    }
    let seed = a.num("seed", 1);
    let n = a.num("n", 100);
    let mut out = a.out();
    let mut rng = Rng::new(seed);
    for _ in 0..n {
        let (s, p) = (rng.next(), a.num("profile", rng.below(PROFILES.len() as u64)) as usize);
        let lim = ctl::Limits { preempt: 0, ticks: 0, execs: 1 };
        ctl::some(&lim, s, &|| program(s, p), &mut |x| {
            writeln!(out, "{{\"how\":\"{}\",\"seed\":\"{s} {p}\",\"ev\":[{}]}}", x.how, x.out.join(",")).unwrap();
        });
    }
}
