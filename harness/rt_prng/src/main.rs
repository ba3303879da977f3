//! Seeds the runtime's random number generator, draws from it and records
//! the results.
#![allow(dead_code, unused_imports)]
#[path = "../../rt_rational/src/num.rs"]
pub mod num;
#[path = "/repo/monoruby/src/globals/prng.rs"]
mod prng;
/// No entropy here: seeds are given.
pub mod getrandom {
    pub fn fill(buf: &mut [u8]) -> Result<(), String> {
        buf.fill(7);
        Ok(())
    }
}
#[derive(Clone, Copy)]
pub struct Value(&'static BigInt);
pub enum RV<'a> {
    Nil,
    Fixnum(i64),
    BigInt(&'a BigInt),
    Float(f64),
}
impl Value {
    pub fn integer(i: i64) -> Value {
        Value::bigint(BigInt::from(i))
    }
    pub fn bigint(b: BigInt) -> Value {
        Value(Box::leak(Box::new(b)))
    }
    pub fn unpack(&self) -> RV<'_> {
        match i64::try_from(self.0) {
            Ok(i) if i.abs() < 1 << 62 => RV::Fixnum(i),
            _ => RV::BigInt(self.0),
        }
    }
}
use common::{Args, Rng, about_to, crash_report, quiet_panics, watchdog};
use num::BigInt;
use prng::{Mt, Prng, build_mt};
use std::io::Write;

fn pairs(ws: &[u32]) -> String {
    let v: Vec<String> = ws.iter().map(|w| format!("[{},{}]", w >> 16, w & 0xffff)).collect();
    format!("[{}]", v.join(","))
}
fn words(n: u128) -> Vec<u32> {
    let mut v: Vec<u32> = (0..4).map(|i| (n >> (32 * i)) as u32).collect();
    while v.len() > 1 && v.last() == Some(&0) {
        v.pop();
    }
    v
}
/// A number drawn, in as many words as its limit.
fn drawn(v: u128, limit: &[u32]) -> Vec<i64> {
    let mut d = words(v);
    d.resize(d.len().max(limit.len()), 0);
    d.iter().flat_map(|w| [(w >> 16) as i64, (w & 0xffff) as i64]).collect()
}
fn float(f: f64) -> Vec<i64> {
    let x = f * 9007199254740992.0;
    if !(0.0..=9007199254740992.0).contains(&x) || x != x.floor() {
        return vec![-1];
    }
    vec![(x as u64 >> 26) as i64, (x as u64 & 0x3ff_ffff) as i64]
}
enum Source {
    Global(Prng),
    Own(Mt, u64),
}
use Source::*;
impl Source {
    fn count(&self) -> i64 {
        match self {
            Global(_) => -1,
            Own(_, c) => *c as i64,
        }
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        match self {
            Global(p) => p.fill_bytes(&mut v),
            Own(m, _) => m.fill_bytes(&mut v),
        }
        v
    }
}
fn history(rng: &mut Rng, len: u64) -> Vec<String> {
    let mut big = |bits: u64| {
        let n = ((rng.next() as u128) << 64) | rng.next() as u128;
        n & ((1u128 << bits) - 1)
    };
    let wide = big(125);
    let mut src = Global(Prng::new());
    let mut ev = vec![];
    let limit = |rng: &mut Rng, most: u64| -> u128 {
        let n = ((rng.next() as u128) << 64) | rng.next() as u128;
        match rng.below(5) {
            0 => rng.below(10) as u128,
            1 => (1u128 << rng.below(most)) - rng.below(2) as u128,
            // limits whose lower words are small: most draws are given up late
            2 => ((rng.below(4) as u128 + 1) << (32 * rng.below(most / 32))) | rng.below(3) as u128,
            _ => n & ((1u128 << rng.range(1, most as i64)) - 1),
        }
    };
    for i in 0..len {
        let mut push = |src: &mut Source, o: String, k: &[u32], f: &mut dyn FnMut(&mut Source) -> Vec<i64>| {
            let shown = o.clone();
            about_to(|| shown);
            if let Own(_, c) = src {
                *c = 0;
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(src))).unwrap_or(vec![-99]);
            ev.push(format!("{{\"o\":[{o}],\"k\":{},\"r\":{},\"c\":{}}}", pairs(k), common::ints(&r), src.count()));
        };
        if i == 0 {
            let mut seed = match rng.below(5) {
                0 => rng.below(3) as i128,
                1 => rng.next() as u32 as i128,
                2 => (rng.next() >> 1) as i128,
                _ => (wide >> (rng.below(3) * 32)) as i128,
            };
            let mut key = words(seed as u128);
            if key.len() > 1 && key.last() == Some(&1) {
                seed &= 0xffff_ffff;
                key.truncate(1);
            }
            let v = Value::bigint(BigInt(if rng.chance(1, 4) { -seed } else { seed }));
            let own = rng.chance(1, 2);
            push(&mut src, "\"seed\"".into(), &key, &mut |s| {
                if own {
                    *s = Own(build_mt(v), 0);
                } else if let Global(p) = s {
                    p.seed_value(v);
                }
                vec![]
            });
            continue;
        }
        match rng.below(8) {
            0 => {
                let n = if rng.chance(1, 2) { rng.range(1, 20) } else { rng.range(200, 700) };
                push(&mut src, format!("\"word\",{n}"), &[], &mut |s| {
                    let b = s.bytes(4 * n as usize);
                    let w = u32::from_le_bytes(b[b.len() - 4..].try_into().unwrap());
                    vec![(w >> 16) as i64, (w & 0xffff) as i64]
                })
            }
            1 => {
                let n = rng.range(0, 14);
                push(&mut src, format!("\"bytes\",{n}"), &[], &mut |s| s.bytes(n as usize).iter().map(|b| *b as i64).collect())
            }
            2 => push(&mut src, "\"real\"".into(), &[], &mut |s| {
                float(match s {
                    Global(p) => p.next_real(),
                    Own(m, c) => prng::next_real(m, c),
                })
            }),
            3 => {
                if let Global(_) = src {
                    push(&mut src, "\"closed\"".into(), &[], &mut |s| match s {
                        Global(p) => float(p.next_real_inclusive()),
                        _ => vec![],
                    })
                }
            }
            4 | 5 => {
                let max = limit(rng, 64) as u64;
                let k = words(max as u128);
                push(&mut src, "\"limit\"".into(), &k, &mut |s| {
                    let v = match s {
                        Global(p) => p.ulong_limited(max),
                        Own(m, c) => prng::ulong_limited(m, c, max),
                    };
                    drawn(v as u128, &k)
                })
            }
            _ => {
                let lim = limit(rng, 120);
                let k = words(lim);
                let max = BigInt(lim as i128 + 1);
                push(&mut src, "\"limit\"".into(), &k, &mut |s| {
                    let v = match s {
                        Global(p) => p.rand_int(&max),
                        Own(m, c) => prng::rand_int(m, c, &max),
                    };
                    drawn(v.0.0 as u128, &k)
                })
            }
        }
    }
    ev
}
fn main() {
    let args = Args::new();
    quiet_panics();
    crash_report();
    watchdog(20);
    let mut out = args.out();
    let seed = args.num("seed", 1);
    for i in 0..args.num("n", 10) {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
        let ev = history(&mut rng, args.num("len", 25));
        writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
    }
}
