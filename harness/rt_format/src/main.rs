//! Runs the formatter behind sprintf, Kernel#format and String#% on
//! generated format strings and arguments and records what it answers.
#![allow(unexpected_cfgs)]
pub mod num;
pub mod shim;
pub use shim::*;
pub mod value {
    pub use crate::shim::IntegerBase;
    pub mod rvalue {
        pub use crate::shim::{Encoding, RStringInner, eucjp_char_width, map_bytes_to_utf8, sjis_char_width};
    }
}
#[path = "/repo/monoruby/src/executor/format.rs"]
#[allow(dead_code)]
mod format;

use common::*;
use crate::num::BigInt;
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
enum Arg {
    I(bool, u128),
    F(f64),
    S(Vec<char>),
    /// a string of bytes, binary
    B(Vec<u8>),
    H(Vec<(String, Arg)>),
}
fn bits(mut m: u128) -> String {
    let mut v = vec![];
    while m > 0 {
        v.push((m & 1) as i64);
        m >>= 1;
    }
    v.reverse();
    ints(&v)
}
fn codes(s: impl Iterator<Item = char>) -> String {
    ints(&s.map(|c| c as i64).collect::<Vec<_>>())
}
impl Arg {
    fn json(&self) -> String {
        match self {
            Arg::I(n, m) => format!("{{\"t\":\"i\",\"neg\":{},\"m\":{}}}", *n as u8, bits(*m)),
            Arg::F(f) => {
                let b = f.to_bits();
                let (e, m) = ((b >> 52 & 0x7ff) as i64, b & ((1 << 52) - 1));
                let k = if f.is_nan() { "nan" } else if f.is_infinite() { "inf" } else { "fin" };
                let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
                if k != "fin" {
                    m = 0;
                }
                while m != 0 && m & 1 == 0 {
                    m >>= 1;
                    e += 1;
                }
                if m == 0 {
                    e = 0;
                }
                format!("{{\"t\":\"f\",\"k\":\"{k}\",\"neg\":{},\"m\":{},\"e\":{e}}}", (b >> 63), bits(m as u128))
            }
            Arg::S(s) => format!("{{\"t\":\"s\",\"s\":{}}}", codes(s.iter().copied())),
            Arg::B(s) => format!("{{\"t\":\"s\",\"s\":{}}}", codes(s.iter().map(|b| *b as char))),
            Arg::H(kv) => format!(
                "{{\"t\":\"h\",\"kv\":[{}]}}",
                kv.iter().map(|(k, v)| format!("[{},{}]", codes(k.chars()), v.json())).collect::<Vec<_>>().join(",")
            ),
        }
    }
    fn value(&self) -> Value {
        match self {
            Arg::I(n, m) => Value::int(BigInt::new(*n, *m)),
            Arg::F(f) => Value::Float(*f),
            Arg::S(s) => Value::text(&s.iter().collect::<String>()),
            Arg::B(b) => Value::string_from_inner(RStringInner::new(b, Encoding::Ascii8)),
            Arg::H(kv) => {
                let m: HashMap<String, Value> = kv.iter().map(|(k, v)| (k.clone(), v.value())).collect();
                Value::Hash(Hashmap(Box::leak(Box::new(m))))
            }
        }
    }
}

/// One call. `enc` is "u" for a UTF-8 format string, "b" for a binary one.
fn call(fmt: &str, enc: &'static str, args: &[Arg]) -> String {
    call_in(fmt, enc, args, false)
}
fn call_in(fmt: &str, enc: &'static str, args: &[Arg], debug: bool) -> String {
    let vals: Vec<Value> = args.iter().map(|a| a.value()).collect();
    let head = format!(
        "{{\"f\":{},\"b\":{},\"d\":{},\"a\":[{}],",
        codes(fmt.chars()),
        (enc == "b") as u8,
        debug as u8,
        args.iter().map(|a| a.json()).collect::<Vec<_>>().join(",")
    );
    about_to(|| head.clone());
    let inner = RStringInner::new(fmt.as_bytes(), if enc == "b" { Encoding::Ascii8 } else { Encoding::Utf8 });
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<i64>> {
        let mut globals = Globals { store: Store, debug };
        let mut vm = Executor;
        let ctx = format::negotiate_format(&globals.store, &inner, &vals)?;
        let view = ctx.view_owned(&inner)?;
        let s = vm.format_by_args(&mut globals, &view, &vals, ctx)?;
        Ok(s.chars().map(|c| c as i64).collect())
    }));
    match r {
        Ok(Ok(s)) => format!("{head}\"r\":[\"ok\"],\"o\":{}}}", ints(&s)),
        Ok(Err(e)) => format!("{head}\"r\":[\"err\",\"{}\"],\"o\":[]}}", e.0),
        Err(_) => format!("{head}\"r\":[\"panic\"],\"o\":[]}}"),
    }
}

fn int(rng: &mut Rng) -> Arg {
    let neg = rng.chance(1, 2);
    let m = match rng.weighted(&[2, 6, 4, 3, 3]) {
        0 => 0,
        1 => rng.below(20) as u128,
        2 => {
            let k = rng.below(70) as u32;
            (1u128 << k).wrapping_add(rng.range(-2, 2) as i128 as u128) & ((1 << 80) - 1)
        }
        3 => rng.below(1 << 20) as u128,
        _ => (((rng.next() as u128) << 64) | rng.next() as u128) >> (48 + rng.below(70)),
    };
    Arg::I(neg, m)
}
/// Numbers with few and with many digits, ties and nearly ties.
fn float(rng: &mut Rng) -> f64 {
    let x = match rng.weighted(&[20, 40, 40, 40, 30, 20, 10, 1]) {
        0 => 0.0,
        1 => rng.below(4000) as f64 / (1u64 << rng.below(8)) as f64,
        2 => {
            let d = [1.0f64, 10.0, 100.0, 1000.0, 1e4, 1e5, 1e6, 1e7, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6];
            let x = *rng.pick(&d);
            match rng.below(5) {
                0 => x,
                1 => f64::from_bits(x.to_bits() - 1),
                2 => x - x / 2048.0,
                3 => x - x / 1000.0,
                _ => x * 9.5,
            }
        }
        3 => (rng.below(100000) as f64) / *rng.pick(&[10.0, 100.0, 1000.0, 1e4, 1e6, 1e9]),
        4 => (rng.next() >> 11) as f64 * (2f64).powi(rng.range(-100, 40) as i32),
        5 => {
            // ones all along, from some bit on
            let m = (1u64 << rng.range(1, 53)) - 1;
            m as f64 * (2f64).powi(rng.range(-60, 20) as i32)
        }
        6 => *rng.pick(&[f64::INFINITY, f64::NAN]),
        // the ends of the range
        _ => match rng.below(3) {
            0 => f64::MAX * (1.0 - rng.below(3) as f64 / 256.0),
            1 => f64::MIN_POSITIVE * (1.0 + rng.below(100) as f64 / 64.0),
            _ => f64::from_bits(rng.next() >> rng.range(12, 63)),
        },
    };
    if rng.chance(1, 3) { -x } else { x }
}
const CHARS: &[char] = &['a', 'b', 'Z', '0', ' ', 'é', 'ß', 'あ', '漢', '\u{301}', '😀', '%', '\n'];
fn text(rng: &mut Rng) -> Vec<char> {
    (0..rng.below(7)).map(|_| *rng.pick(CHARS)).collect()
}
fn flags(rng: &mut Rng, s: &str) -> String {
    let s: Vec<char> = s.chars().collect();
    let n = rng.weighted(&[3, 4, 3, 2]);
    (0..n).map(|_| *rng.pick(&s)).collect()
}
fn width(rng: &mut Rng, max: u64) -> String {
    if rng.chance(1, 3) { String::new() } else { (1 + rng.below(max)).to_string() }
}
fn prec(rng: &mut Rng, max: u64) -> String {
    match rng.below(5) {
        0 | 1 => String::new(),
        2 if rng.chance(1, 4) => ".".into(),
        _ => format!(".{}", rng.below(max)),
    }
}
fn one(rng: &mut Rng, focus: &str) -> (String, Arg, &'static str) {
    match focus {
        "ints" => {
            let c = *rng.pick(&['d', 'i', 'u', 'b', 'B', 'o', 'x', 'X', 'o', 'x', 'd']);
            let a = int(rng);
            (format!("%{}{}{}{c}", flags(rng, "+ -0#0#"), width(rng, 24), prec(rng, 16)), a, "u")
        }
        "floats" => {
            let c = *rng.pick(&['f', 'e', 'E', 'g', 'G', 'a', 'A', 'f', 'g', 'g']);
            let a = if rng.chance(1, 8) {
                match int(rng) {
                    Arg::I(n, m) if c != 'f' => Arg::I(n, m >> 28),
                    a => a,
                }
            } else {
                Arg::F(float(rng))
            };
            (format!("%{}{}{}{c}", flags(rng, "+ -0#"), width(rng, 24), prec(rng, 12)), a, "u")
        }
        _ => {
            let c = *rng.pick(&['s', 's', 'p', 'c', 'c']);
            let b = rng.chance(1, 5);
            let a = match rng.below(6) {
                0 if c != 'c' => int(rng),
                0..=2 if c == 'c' => {
                    let m = *rng.pick(&[0u32, 10, 65, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x3042, 0x1F600, 0x10FFFF, 0x110000]);
                    Arg::I(rng.chance(1, 8), m as u128)
                }
                _ if b => Arg::B((0..rng.below(6)).map(|_| *rng.pick(&[65u8, 97, 128, 200, 255, 0])).collect()),
                _ => Arg::S(text(rng)),
            };
            let c = if matches!(a, Arg::B(_)) && c == 'p' { 's' } else { c };
            let p = if c == 'c' { String::new() } else { prec(rng, 6) };
            (format!("%{}{}{p}{c}", flags(rng, "+ -0#"), width(rng, 9)), a, if b { "b" } else { "u" })
        }
    }
}
/// One directive with some text around it.
fn single(rng: &mut Rng, focus: &str) -> String {
    let (d, a, enc) = one(rng, focus);
    let fmt = match rng.below(6) {
        0 => format!("<{d}>"),
        1 if enc == "u" => format!("é{d}%%"),
        // the same field with its value found by name, with and without a letter
        2 if enc == "u" && focus == "text" => {
            let name = *rng.pick(NAMES);
            let (body, c) = (&d[1..d.len() - 1], &d[d.len() - 1..]);
            let fmt = match c {
                "s" => format!("%{body}{{{name}}}"),
                _ => format!("%{body}<{name}>{c}"),
            };
            return call(&fmt, enc, &[Arg::H(vec![(name.to_string(), a)])]);
        }
        _ => d,
    };
    call(&fmt, enc, &[a])
}

const NAMES: &[&str] = &["a", "b", "é", "long name"];
/// Several directives choosing their arguments in different ways.
fn selection(rng: &mut Rng) -> String {
    // 0 in order, 1 by number, 2 by name; now and then the ways are mixed
    let way = rng.below(3);
    let mixed = rng.chance(1, 5);
    let n = 1 + rng.below(4) as usize;
    let mut args: Vec<Arg> = vec![];
    let mut fmt = String::new();
    let many = 1 + rng.below(4) as usize;
    let typed = |rng: &mut Rng| match rng.below(5) {
        0 => Arg::S(text(rng)),
        _ => Arg::I(rng.chance(1, 2), rng.below(200) as u128),
    };
    if way == 1 {
        args = (0..many).map(|_| Arg::I(rng.chance(1, 4), rng.below(12) as u128)).collect();
    }
    if way == 2 {
        let mut kv = vec![];
        for k in NAMES {
            if rng.chance(4, 5) {
                kv.push((k.to_string(), typed(rng)));
            }
        }
        args.push(Arg::H(kv));
    }
    for j in 0..n {
        let w = if mixed && j > 0 && rng.chance(1, 2) { rng.below(3) } else { way };
        fmt.push_str(*rng.pick(&["", " ", "x", "%%", "é,"]));
        let mut fl: String = flags(rng, "-0+ #");
        let mut wd = width(rng, 8);
        let mut pr = if rng.chance(1, 3) { prec(rng, 5) } else { String::new() };
        let c = *rng.pick(&['d', 's', 'x', 'b', 'o', 'f']);
        let num = |rng: &mut Rng| match rng.below(40) {
            0 => many + 1,
            1 => 0,
            _ => 1 + rng.below(many as u64) as usize,
        };
        match w {
            0 => {
                if rng.chance(1, 4) {
                    wd = "*".into();
                    args.push(Arg::I(rng.chance(1, 4), rng.below(9) as u128));
                }
                if rng.chance(1, 6) {
                    pr = ".*".into();
                    args.push(Arg::I(rng.chance(1, 4), rng.below(6) as u128));
                }
                if way != 2 || rng.chance(1, 2) {
                    args.push(typed(rng));
                }
                fmt.push_str(&format!("%{fl}{wd}{pr}{c}"));
            }
            1 => {
                if rng.chance(1, 4) {
                    wd = format!("*{}$", num(rng));
                }
                if rng.chance(1, 6) {
                    pr = format!(".*{}$", num(rng));
                }
                let k = format!("{}$", num(rng));
                fmt.push_str(&match rng.below(3) {
                    0 => format!("%{fl}{k}{wd}{pr}{c}"),
                    1 if wd.is_empty() || wd.starts_with('*') => {
                        if pr.starts_with(".") && !pr.ends_with('$') {
                            pr = String::new();
                        }
                        format!("%{fl}{wd}{pr}{k}{c}")
                    }
                    _ => format!("%{k}{fl}{wd}{pr}{c}"),
                });
            }
            _ => {
                let k = *rng.pick(NAMES);
                if rng.chance(1, 12) {
                    fl = String::new();
                    wd = "*".into();
                }
                let again = if rng.chance(1, 10) { format!("<{}>", rng.pick(NAMES)) } else { String::new() };
                fmt.push_str(&match rng.below(6) {
                    0 => format!("%{fl}{wd}{pr}{{{k}}}"),
                    1 => format!("%{fl}<{k}>{wd}{again}{pr}{c}"),
                    2 => format!("%{fl}{wd}<{k}>{pr}{again}{c}"),
                    3 => format!("%{fl}{wd}{pr}<{k}>{again}{c}"),
                    4 if rng.chance(1, 3) => format!("%{fl}{wd}{pr}<{k}>{{{k}}}"),
                    _ => format!("%<{k}>{again}{fl}{wd}{pr}{c}"),
                });
            }
        }
    }
    if way != 2 {
        if rng.chance(1, 10) {
            args.pop();
        } else if rng.chance(1, 10) {
            args.push(typed(rng));
        }
    }
    // something for the names to be found in, if they are looked for
    if mixed && way != 2 {
        args.push(Arg::H(NAMES.iter().map(|k| (k.to_string(), Arg::I(false, 5))).collect()));
    }
    let debug = !mixed && rng.chance(1, 3);
    call_in(&fmt, "u", &args, debug)
}

/// Format strings put together from pieces of directives.
fn pieces(rng: &mut Rng) -> String {
    let args: Vec<Arg> = match rng.below(4) {
        0 => vec![Arg::H(vec![("a".into(), Arg::I(false, 5)), ("b".into(), Arg::S(vec!['é']))])],
        _ => (0..1 + rng.below(4)).map(|_| if rng.chance(1, 5) { Arg::S(text(rng)) } else { Arg::I(rng.chance(1, 4), rng.below(9) as u128) }).collect(),
    };
    let parts = ["-", "0", "+", " ", "#", "5", "3", ".", ".2", "*", "1$", "2$", "*1$", "<a>", "{b}", "d", "s", "x", "%"];
    let ends = ["d", "s", "x", "b", "o", "f", "e", "d", "s", "Q", "%", "$", "é"];
    let mut fmt = String::new();
    for _ in 0..1 + rng.below(2) {
        fmt.push('%');
        let mut flagged = false;
        let mut named = false;
        let mut star = false;
        for _ in 0..rng.below(4) {
            let p = *rng.pick(&parts);
            // after a value is chosen a flag may not follow earlier flags
            if named && flagged && "-0+ #".contains(p) {
                continue;
            }
            // neither is a value chosen between a width and a precision
            if star && (p == "0" || named && p.starts_with('.')) {
                continue;
            }
            star |= p.starts_with('*');
            flagged |= "-0+ #".contains(p);
            named |= p == "1$" || p == "2$" || p.starts_with('<');
            fmt.push_str(p);
        }
        fmt.push_str(*rng.pick(&ends));
        fmt.push_str(*rng.pick(&["", "|"]));
    }
    call(&fmt, "u", &args)
}

/// Numbers out of range and very wide fields.
fn limits() -> Vec<String> {
    let i = |n: i64| Arg::I(n < 0, n.unsigned_abs() as u128);
    let mut v = vec![];
    // far beyond what could be allocated, should a width be taken at its word
    for big in ["99999999999999", "18446744073709551617", "18446744073709551621", "36893488147419103233"] {
        for f in ["%{}$d", "%{}d", "%0{}d", "%.{}f", "%.{}d", "%-{}s", "%*{}$d", "%.{}e"] {
            v.push(call(&f.replace("{}", big), "u", &[i(7), i(8), i(9)]));
        }
    }
    for big in ["3", "2147483647", "2147483648", "4294967297", "4294967298"] {
        v.push(call(&format!("%{big}$d"), "u", &[i(7), i(8)]));
        v.push(call(&format!("%*{big}$d"), "u", &[i(7), i(8)]));
    }
    for big in [1u128 << 46, (1 << 61) + 1, 1 << 62, 1 << 63, 1 << 70] {
        for s in [false, true] {
            v.push(call("%*d", "u", &[Arg::I(s, big), i(3)]));
            v.push(call("%-*s", "u", &[Arg::I(s, big), i(3)]));
        }
        v.push(call("%.*f", "u", &[Arg::I(false, big), Arg::F(0.5)]));
        v.push(call("%.*d", "u", &[Arg::I(false, big), i(5)]));
    }
    for f in ["%65540d", "%065540d", "%+-65540d", "%#065540x", "%.65540d", "%65540s", "%065540a"] {
        v.push(call(f, "u", &[i(-9)]));
    }
    for f in ["%.65540f", "%065540f", "%.65540e", "%#.65540g", "%.65540a", "%065540.3e"] {
        v.push(call(f, "u", &[Arg::F(-2.75)]));
    }
    v
}

fn main() {
    let a = Args::new();
    let mut out = a.out();
    quiet_panics();
    crash_report();
    watchdog(20);
    let (n, k) = (a.num("n", 10), a.num("k", 40));
    let focus = a.get("focus").unwrap_or("ints").to_string();
    let mut rng = Rng::new(a.num("seed", 1));
    match a.mode() {
        "limits" => {
            for e in limits() {
                writeln!(out, "{{\"ev\":[{e}]}}").unwrap();
            }
        }
        "grid" => {
            // every small directive on a few numbers
            let (part, parts) = (a.num("part", 0), a.num("parts", 1));
            let vals = [0i64, 1, -1, 7, 8, -8, -9, 255, -255, -256, 1 << 40, -(1 << 62)];
            let mut no = 0;
            for c in "dboxX".chars() {
                for fl in 0..32u32 {
                    no += 1;
                    if no % parts != part {
                        continue;
                    }
                    let mut ev = vec![];
                    let f: String = "+ -0#".chars().enumerate().filter(|(i, _)| fl >> i & 1 == 1).map(|(_, c)| c).collect();
                    for w in ["", "1", "4", "9"] {
                        for p in ["", ".0", ".1", ".3", ".6"] {
                            for x in vals {
                                ev.push(call(&format!("%{f}{w}{p}{c}"), "u", &[Arg::I(x < 0, x.unsigned_abs() as u128)]));
                            }
                        }
                    }
                    writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
                }
            }
        }
        _ => {
            for _ in 0..n {
                let ev: Vec<String> = (0..k)
                    .map(|_| match focus.as_str() {
                        "selection" => selection(&mut rng),
                        "pieces" => pieces(&mut rng),
                        f => single(&mut rng, f),
                    })
                    .collect();
                writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
            }
        }
    }
}
