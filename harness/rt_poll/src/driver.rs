//! Runs small programs of several threads over the poll word, the timer and
//! the signal table, under every interleaving within limits or under random
//! ones, and records the calls and returns.
use crate::codegen::signal_table as sig;
use crate::{poll_flag, preempt};
use common::*;
use std::collections::HashSet;
use std::ctl;
use std::io::Write;
use std::sync::atomic::{AtomicU32, Ordering};

static W: [AtomicU32; 3] = [AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0)];
fn w(i: i64) -> *mut u32 {
    W[i as usize - 1].as_ptr()
}
fn bits(b: u32) -> Vec<i64> {
    (0..32).filter(|i| b >> i & 1 == 1).map(|i| i + 1).collect()
}
type Prog = (Vec<Op>, Vec<Op>);

fn apply(op: &Op) -> (Res, String) {
    let x = &op.1;
    let mut s = String::new();
    let b = |v: bool| ("ok", vec![v as i64]);
    let r: Res = match op.0 {
        "register" => {
            poll_flag::register(w(x[0]));
            ("ok", vec![])
        }
        "unregister" => {
            poll_flag::unregister(w(x[0]));
            ("ok", vec![])
        }
        "adopt" => {
            poll_flag::adopt_signal_registry();
            ("ok", vec![])
        }
        "setgc" => {
            poll_flag::set_gc();
            ("ok", vec![])
        }
        "cleargc" => {
            poll_flag::clear_gc();
            ("ok", vec![])
        }
        "gcreq" => b(poll_flag::gc_requested()),
        "setpre" => {
            poll_flag::set_preempt();
            ("ok", vec![])
        }
        "consume" => b(poll_flag::consume_preempt()),
        "clearsig" => {
            poll_flag::clear_signal();
            ("ok", vec![])
        }
        "handler" => {
            sig::signal_handler(x[0] as i32);
            ("ok", vec![])
        }
        "take" => ("ok", bits(sig::take_pending_signals())),
        "has" => b(sig::has_pending_signals()),
        "peek" => ("ok", vec![W[x[0] as usize - 1].load(Ordering::Relaxed) as i64]),
        "regflag" => {
            preempt::register_flag(w(x[0]));
            ("ok", vec![])
        }
        "dropped" => {
            preempt::codegen_dropped();
            ("ok", vec![])
        }
        "count" => {
            preempt::on_thread_count(x[0] as usize);
            ("ok", vec![])
        }
        "renudge" => {
            preempt::stress_renudge();
            ("ok", vec![])
        }
        "settle" => {
            ctl::settle(45_000_000);
            ("ok", vec![])
        }
        "lowest" => {
            let m = x.iter().fold(0u32, |m, i| m | 1 << (i - 1));
            ("ok", sig::lowest_pending_signo(m).iter().map(|v| *v as i64).collect())
        }
        "toerr" => match sig::signo_to_error(x[0] as i32) {
            None => ("ok", vec![]),
            Some(e) => {
                s = e.1;
                ("ok", vec![e.0])
            }
        },
        "kinds" => (
            "ok",
            vec![
                sig::is_trappable(x[0] as i32) as i64,
                sig::is_uncatchable(x[0] as i32) as i64,
                sig::is_default_installed(x[0] as i32) as i64,
            ],
        ),
        _ => unreachable!("{}", op.0),
    };
    (r, s)
}
fn step(t: usize, op: &Op) {
    ctl::note(format!("{{\"k\":\"call\",\"t\":{t},\"o\":{},\"r\":[]}}", op_json(op)));
    let r = std::panic::catch_unwind(|| apply(op)).unwrap_or((("panic", vec![]), String::new()));
    ctl::note(format!("{{\"k\":\"ret\",\"t\":{t},\"r\":{},\"s\":\"{}\"}}", res_json(&r.0), r.1));
}
/// Each thread runs its set-up undisturbed, then its operations; the driver
/// looks at everything afterwards.
fn run(progs: &[Prog]) {
    let mut hs = vec![];
    for (i, p) in progs.iter().enumerate() {
        let p = p.clone();
        hs.push(ctl::start(move || {
            ctl::quiet(|| p.0.iter().for_each(|o| step(i + 1, o)));
            p.1.iter().for_each(|o| step(i + 1, o));
        }));
    }
    for h in hs {
        ctl::join(h);
    }
    for o in [("peek", vec![1]), ("peek", vec![2]), ("peek", vec![3]), ("take", vec![]), ("has", vec![])] {
        ctl::quiet(|| step(4, &o));
    }
}

fn o(n: &'static str) -> Op {
    (n, vec![])
}
fn oi(n: &'static str, i: i64) -> Op {
    (n, vec![i])
}
/// what the owner of a word may do between polls, and its poll
fn owner(r: &mut Rng, n: usize) -> Vec<Op> {
    let mut v = vec![];
    while v.len() < n {
        match r.weighted(&[6, 6, 6, 5, 8, 6, 4, 4, 3, 5]) {
            0 => v.push(o("setgc")),
            1 => v.push(o("cleargc")),
            2 => v.push(o("gcreq")),
            3 => v.push(o("setpre")),
            4 => v.push(o("consume")),
            5 => v.push(o("clearsig")),
            6 => v.push(o("take")),
            7 => v.push(oi("peek", r.range(1, 2))),
            8 => v.push(o("has")),
            _ => v.extend([o("consume"), o("clearsig"), o("take"), o("gcreq")]),
        }
    }
    v
}
fn handler(r: &mut Rng, n: usize) -> Vec<Op> {
    (0..n).map(|_| oi("handler", *r.pick(&[1, 2, 2, 15, 15, 31, 32, 33, 0]))).collect()
}
/// several interpreters coming and going
fn registry(r: &mut Rng, me: i64, n: usize) -> Vec<Op> {
    (0..n)
        .map(|_| match r.below(8) {
            0 | 1 => oi("register", me),
            2 | 3 => oi("unregister", me),
            4 => o("adopt"),
            5 => o("setgc"),
            6 => o("clearsig"),
            _ => oi("peek", me),
        })
        .collect()
}
fn timer(r: &mut Rng, n: usize) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..n {
        match r.below(10) {
            0..=2 => v.push(oi("count", 2)),
            3..=5 => v.push(oi("count", 1)),
            6 => v.push(o("dropped")),
            7 => v.push(oi("regflag", r.range(1, 2))),
            8 => v.extend([o("consume"), o("renudge")]),
            _ => v.push(oi("peek", 1)),
        }
    }
    v.extend([o("settle"), oi("peek", 1), oi("peek", 2)]);
    v
}
fn program(kind: &str, r: &mut Rng) -> Vec<Prog> {
    let own = |i: i64| vec![oi("register", i), oi("regflag", i)];
    match kind {
        "lanes" => {
            let mut s = own(1);
            s.push(oi("count", 2));
            let n = r.range(2, 5) as usize;
            vec![(s, owner(r, n)), (vec![], handler(r, 1 + n % 2))]
        }
        "signals" => {
            let mut a = vec![];
            for _ in 0..r.range(1, 3) {
                a.extend([o("clearsig"), o("take")]);
                if r.chance(1, 3) {
                    a.push(o("has"));
                }
            }
            vec![(own(1), a), (vec![], handler(r, 2)), (vec![], handler(r, 1))]
        }
        "registry" => {
            let (n, m) = (r.range(1, 3) as usize, r.range(1, 3) as usize);
            let mut b = vec![oi("register", 2)];
            b.truncate(r.below(2) as usize);
            vec![(own(1), registry(r, 1, n)), (b, registry(r, 2, m)), (vec![], handler(r, 1))]
        }
        _ => {
            let n = r.range(2, 4) as usize;
            vec![(own(1), timer(r, n))]
        }
    }
}

pub fn main() {
    let a = Args::new();
    quiet_panics();
    let mut out = a.out();
    let mut seen: HashSet<String> = HashSet::new();
    let mut execs = 0u64;
    let mut cut = 0u64;
    let mut r = Rng::new(a.num("seed", 1));
    let lim = ctl::Limits {
        preempt: a.num("preempt", 3) as u32,
        ticks: a.num("ticks", 2) as u32,
        execs: a.num("execs", 400),
    };
    let var = |n| std::env::var_os(n).is_some();
    let env = if var("MONORUBY_PREEMPT_STRESS") { 1 } else { 2 * var("MONORUBY_NO_PREEMPT") as i64 };
    let mut sink = |e: ctl::Execution| {
        execs += 1;
        // an execution always ends; where it was stopped instead, what
        // happened until then is judged
        let line = format!("{{\"how\":\"{}\",\"env\":{env},\"ev\":[{}]}}", e.how, e.out.join(","));
        if seen.insert(line.clone()) {
            writeln!(out, "{line}").unwrap();
        }
    };
    match a.mode() {
        "tables" => {
            // no threads: the tables over every number, and bitmaps
            let mut p = vec![];
            for s in -2..=66 {
                p.push(oi("kinds", s));
                p.push(oi("toerr", s));
            }
            p.push(("lowest", vec![]));
            for i in 1..=32 {
                for j in i..=32 {
                    p.push(("lowest", if i == j { vec![i] } else { vec![i, j] }));
                }
            }
            for _ in 0..400 {
                p.push(("lowest", bits(r.next() as u32 & r.next() as u32)));
            }
            let mut k = 0;
            for c in p.chunks(100) {
                k += 1;
                let c = c.to_vec();
                let lim = ctl::Limits { preempt: 0, ticks: 0, execs: 1 };
                ctl::all(&lim, &|| run(&[(vec![], c.clone())]), &mut sink);
            }
            eprintln!("{k} chunks");
        }
        m => {
            let kind = m.to_string();
            for k in 0..a.num("n", 50) {
                let p = program(&kind, &mut r);
                if a.get("random").is_some() {
                    ctl::some(&lim, a.num("seed", 1) * 1000 + k, &|| run(&p), &mut sink);
                } else if !ctl::all(&lim, &|| run(&p), &mut sink) {
                    cut += 1;
                }
            }
        }
    }
    println!("{{\"executions\":{execs},\"histories\":{},\"cut\":{cut}}}", seen.len());
}
