//! Runs the runtime's rational arithmetic and rounding and records the results.
#![allow(dead_code, unused_imports)]
pub mod num;
pub mod value {
    #[derive(Clone, Copy)]
    pub enum RoundHalf {
        Up,
        Down,
        Even,
    }
    pub mod rvalue {
        pub use crate::num;
        pub use crate::num::{BigInt, FromPrimitive};
        pub struct RValue;
        pub struct Allocator<T>(std::marker::PhantomData<T>);
        pub trait GC<T> {
            fn mark(&self, alloc: &mut Allocator<T>);
        }
        pub struct Value;
        impl Value {
            pub fn integer(_: i64) -> Value {
                Value
            }
            pub fn bigint(_: BigInt) -> Value {
                Value
            }
        }
        pub struct MonorubyErr;
        impl MonorubyErr {
            pub fn divide_by_zero() -> Self {
                MonorubyErr
            }
        }
        pub type Result<T> = std::result::Result<T, MonorubyErr>;
        #[path = "/repo/monoruby/src/value/rvalue/rational.rs"]
        pub mod rational;
    }
}
use common::{Args, Rng, about_to, crash_report, quiet_panics, watchdog};
use num::BigInt;
use std::io::Write;
use value::RoundHalf;
use value::rvalue::rational::{RationalFloorResult, RationalInner};

fn small(b: &BigInt) -> i64 {
    // beyond the integers of the checker: a number that no answer has
    i64::try_from(b).ok().filter(|x| x.abs() < 1 << 31).unwrap_or(-2_147_483_648)
}
fn both(r: &RationalInner) -> Vec<i64> {
    vec![small(r.num()), small(r.den())]
}
fn rounded(r: RationalFloorResult) -> Vec<i64> {
    match r {
        RationalFloorResult::Integer(i) => vec![small(&i)],
        RationalFloorResult::Rational(r) => both(&r),
    }
}

/// The result of an operation on two rationals given by four numbers.
fn apply(op: &str, a: &[i64]) -> Vec<i64> {
    if op == "float" {
        let f = a[0] as f64 * 2f64.powi(a[1] as i32);
        let r = RationalInner::from_f64(f);
        let den = r.den().0;
        let log = if den.count_ones() == 1 { den.trailing_zeros() as i64 } else { -1 };
        return vec![small(r.num()), log, (r.to_f() == f) as i64];
    }
    let x = RationalInner::new(a[0], a[1]);
    let y = || RationalInner::new(a[2], a[3]);
    match op {
        "new" => both(&x),
        "add" => both(&x.add(&y())),
        "sub" => both(&x.sub(&y())),
        "mul" => both(&x.mul(&y())),
        "div" => x.div(&y()).map_or(vec![], |r| both(&r)),
        "cmp" => vec![x.cmp(&y()) as i64, x.eq(&y()) as i64],
        "one" => {
            let mut v = both(&x.neg());
            v.extend(both(&x.abs()));
            v.extend([small(&x.to_i()), x.is_zero() as i64, x.is_negative() as i64]);
            v
        }
        "text" => {
            let (s, t) = (x.to_s(), x.inspect());
            let num = |s: &str| s.parse().unwrap_or(i64::MIN);
            match (s.split_once('/'), t.strip_prefix('(').and_then(|t| t.strip_suffix(')'))) {
                (Some((n, d)), Some(t)) if t == s => vec![num(n), num(d)],
                _ => vec![],
            }
        }
        "floor" => rounded(x.rational_floor(a[2])),
        "ceil" => rounded(x.rational_ceil(a[2])),
        "truncate" => rounded(x.rational_truncate(a[2])),
        "round" => rounded(x.rational_round(a[2], [None, Some(RoundHalf::Up), Some(RoundHalf::Down), Some(RoundHalf::Even)][a[3] as usize])),
        "simplest" => both(&RationalInner::find_simplest(&x, &y())),
        _ => unreachable!(),
    }
}
fn event(op: &str, a: &[i64]) -> String {
    let o = format!("[\"{op}\"{}]", a.iter().map(|x| format!(",{x}")).collect::<String>());
    let shown = o.clone();
    about_to(|| shown);
    let r = std::panic::catch_unwind(|| apply(op, a)).unwrap_or(vec![-99, -99, -99]);
    format!("{{\"o\":{o},\"r\":{}}}", common::ints(&r))
}
const ROUNDS: [&str; 3] = ["floor", "ceil", "truncate"];

/// Every rounding of every number with small numerator and denominator.
fn all(out: &mut dyn Write, n: i64, d: i64) {
    for d in 1..=d {
        for n in -n..=n {
            let mut ev = vec![event("one", &[n, d]), event("text", &[n, d])];
            for k in -2..=2 {
                ev.extend(ROUNDS.iter().map(|op| event(op, &[n, d, k])));
                ev.extend((0..4).map(|h| event("round", &[n, d, k, h])));
            }
            writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
        }
    }
}
/// Every operation on every two small rationals, every small tolerance.
fn pairs(out: &mut dyn Write, focus: &str, n: i64, d: i64) {
    for d1 in 1..=d {
        for a in -n..=n {
            let mut ev = vec![event("new", &[a, -d1]), event("one", &[a, d1]), event("text", &[a, d1])];
            for d2 in 1..=d {
                for b in -n..=n {
                    if focus == "near" {
                        ev.push(event("simplest", &[a * 5, d1 * 7, b.abs(), d2]));
                    } else {
                        ev.extend(["add", "sub", "mul", "div", "cmp"].iter().map(|op| event(op, &[a, d1, b, d2])));
                    }
                }
            }
            writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
        }
    }
}
fn random(rng: &mut Rng, focus: &str, len: u64) -> Vec<String> {
    let part = |rng: &mut Rng| match rng.below(4) {
        0 => rng.range(-12, 12),
        1 => rng.range(-60, 60),
        2 => *rng.pick(&[5, 15, 25, 50, 55, 105, 145, 150, 250, 500, 505, 995, 999, 1000, 1499]) * *rng.pick(&[1, -1]),
        _ => rng.range(-1500, 1500),
    };
    let low = |rng: &mut Rng| *rng.pick(&[1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 25, 40, 50, 60]);
    (0..len)
        .map(|_| {
            let (n, m) = (part(rng), part(rng));
            let (d, e) = (low(rng), low(rng));
            let sign = if rng.chance(1, 3) { -1 } else { 1 };
            let k = rng.range(-4, 3);
            match (focus, rng.below(6)) {
                ("round", 0..3) => event(*rng.pick(&ROUNDS), &[n, d, k]),
                ("round", _) => event("round", &[n, d, k, rng.range(0, 3)]),
                ("near", 0) => event("float", &[n, rng.range(-12, 10)]),
                ("near", 1) => event("float", &[n, rng.range(-115, -1)]),
                ("near", 2) => event("simplest", &[n, d, 0, 1]),
                ("near", 3) => event("simplest", &[n, d, m.abs() % 50, low(rng)]),
                ("near", _) => event("simplest", &[n, d, 1, *rng.pick(&[2, 3, 5, 10, 20, 40, 60, 97, 150, 400, 999])]),
                (_, 0) => event("new", &[n, d * sign]),
                (_, 1) => event("div", &[n, d, *rng.pick(&[0, 1, m]), e]),
                (_, 2) => event("cmp", &[n, d, if rng.chance(1, 3) { n } else { m }, if rng.chance(1, 3) { d } else { e }]),
                (_, 3) => event(*rng.pick(&["one", "text"]), &[n, d * sign]),
                _ => event(*rng.pick(&["add", "sub", "mul", "div"]), &[n, d, m, e]),
            }
        })
        .collect()
}
fn main() {
    let args = Args::new();
    quiet_panics();
    crash_report();
    watchdog(20);
    let mut out = args.out();
    let out = &mut *out;
    match args.mode() {
        "pairs" => pairs(out, args.get("focus").unwrap_or("arith"), args.num("n", 5) as i64, args.num("den", 4) as i64),
        "all" => all(out, args.num("n", 40) as i64, args.num("den", 8) as i64),
        "gen" => {
            let mut rng = Rng::new(args.num("seed", 1));
            for _ in 0..args.num("n", 100) {
                let ev = random(&mut rng, args.get("focus").unwrap_or("arith"), 50);
                writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
            }
        }
        _ => std::process::exit(2),
    }
}
