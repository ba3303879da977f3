//! Drives Array#pack and String#unpack.
use crate::rvalue::string::*;
use crate::shim::*;
use common::*;
use std::io::Write as _;

pub const STAR: i64 = -1;
pub const NONE: i64 = -2;
pub const HUGE: i64 = -3;
/// letter, modifiers, count
pub type Dir = (char, i64, i64);
#[derive(Clone, Debug)]
pub enum V {
    Int(i128),
    Str(Vec<u8>),
    Nil,
    Float(f64),
}

fn template(g: &mut Rng, t: &[Dir]) -> String {
    let mut s = String::new();
    for (c, m, n) in t {
        if g.chance(1, 6) {
            s.push_str(*g.pick(&[" ", "\n", "\t ", "# C2 n*\n", "#\n"]));
        }
        s.push(*c);
        let mut mods = vec![];
        if m & 4 != 0 {
            mods.push(if g.chance(1, 2) { '!' } else { '_' });
        }
        match m & 3 {
            1 => mods.push('<'),
            2 => mods.push('>'),
            _ => {}
        }
        if g.chance(1, 2) {
            mods.reverse();
        }
        s.extend(mods);
        match *n {
            STAR => s.push('*'),
            NONE => {}
            HUGE => s.push_str("99999999999999999999999999"),
            n => s.push_str(&n.to_string()),
        }
    }
    s
}
fn dirs_json(t: &[Dir]) -> String {
    let v: Vec<String> = t.iter().map(|(c, m, n)| format!("[\"{c}\",{m},{n}]")).collect();
    format!("[{}]", v.join(","))
}
fn bytes_json(b: &[u8]) -> String {
    ints(&b.iter().map(|x| *x as i64).collect::<Vec<_>>())
}
fn int_json(n: i128) -> String {
    format!("[0,{}]", bytes_json(&n.to_le_bytes()[..10]))
}
fn v_json(v: &V) -> String {
    match v {
        V::Int(n) => int_json(*n),
        V::Str(b) => format!("[1,{}]", bytes_json(b)),
        V::Nil => "[2,[]]".into(),
        V::Float(f) => format!("[3,{}]", bytes_json(&f.to_be_bytes())),
    }
}
fn value(v: &V) -> Value {
    match v {
        V::Int(n) => match i64::try_from(*n) {
            Ok(n) => Value::integer(n),
            Err(_) => Value::bigint(num::BigInt { neg: *n < 0, mag: n.unsigned_abs() }),
        },
        V::Str(b) => Value::bytes(b.clone()),
        V::Nil => Value::nil(),
        V::Float(f) => Value::float(*f),
    }
}
fn value_json(v: Value) -> String {
    match v.unpack() {
        RV::Nil => v_json(&V::Nil),
        RV::Fixnum(n) => int_json(n as i128),
        RV::BigInt(b) => {
            let n = b.mag as i128;
            int_json(if b.neg { -n } else { n })
        }
        RV::Float(f) => v_json(&V::Float(f)),
        RV::String(s) => {
            let kind = match s.encoding() {
                Encoding::Ascii8 => 1,
                Encoding::UsAscii => 4,
                _ => 9,
            };
            format!("[{kind},{}]", bytes_json(s.as_bytes()))
        }
        RV::Other => "[9,[]]".into(),
    }
}
fn err_json(e: MonorubyErr) -> String {
    let k = match e {
        MonorubyErr::Arg(_) => "argument",
        MonorubyErr::Range(_) => "range",
        MonorubyErr::Type(_) => "type",
        _ => "other",
    };
    format!("[\"err\",\"{k}\"]")
}

/// One call of pack: the event, and the bytes.
fn pack(g: &mut Rng, t: &[Dir], vals: &[V], buf: Option<&[u8]>) -> (String, Option<Vec<u8>>) {
    let text = template(g, t);
    let vj: Vec<String> = vals.iter().map(v_json).collect();
    let o = format!("[\"pack\",{},[{}],{}]", dirs_json(t), vj.join(","), bytes_json(buf.unwrap_or(&[])));
    about_to(|| format!("pack {text:?} {vals:?} {buf:?}"));
    let got = std::panic::catch_unwind(|| {
        let ary: Vec<Value> = vals.iter().map(value).collect();
        let b = buf.map(|b| Value::bytes(b.to_vec()));
        match pack::pack(&mut Executor, &mut Globals { store: Store }, &ary, &text, b) {
            Ok(v) => {
                if b.is_some_and(|b| b != v) {
                    return ("[\"other\"]".to_string(), None);
                }
                let s = v.as_rstring_inner();
                let e = match s.encoding() {
                    _ if b.is_some() => -1,
                    Encoding::Ascii8 => 0,
                    Encoding::Utf8 => 1,
                    Encoding::UsAscii => 2,
                    _ => 9,
                };
                (format!("[\"ok\",{e},{}]", bytes_json(s.as_bytes())), Some(s.as_bytes().to_vec()))
            }
            Err(e) => (err_json(e), None),
        }
    });
    let (r, b) = got.unwrap_or(("[\"panic\"]".into(), None));
    (format!("{{\"o\":{o},\"r\":{r}}}"), b)
}
fn unpack(g: &mut Rng, t: &[Dir], b: &[u8], once: bool, base: usize) -> String {
    let text = template(g, t);
    let o = format!("[\"unpack\",{},{},{},{base}]", bytes_json(b), dirs_json(t), once as i64);
    about_to(|| format!("unpack {text:?} {b:?} {once}"));
    let r = std::panic::catch_unwind(|| match pack::unpack(b, &text, once, base) {
        Ok(v) => {
            let vs = if once { vec![value_json(v)] } else { v.as_array().iter().map(|v| value_json(*v)).collect() };
            format!("[\"ok\",[{}]]", vs.join(","))
        }
        Err(e) => err_json(e),
    })
    .unwrap_or("[\"panic\"]".into());
    format!("{{\"o\":{o},\"r\":{r}}}")
}

const INTS: [char; 16] = ['c', 'C', 's', 'S', 'i', 'I', 'l', 'L', 'q', 'Q', 'j', 'J', 'v', 'V', 'n', 'N'];
const FLOATS: [char; 8] = ['d', 'D', 'E', 'G', 'f', 'F', 'e', 'g'];
fn modifiable(c: char) -> bool {
    "sSiIlLqQjJ".contains(c)
}
fn byte(g: &mut Rng) -> u8 {
    match g.below(4) {
        0 => g.below(256) as u8,
        1 => *g.pick(b"\0\0 \x01\x7f\x80\xff\xc0"),
        _ => *g.pick(b"aZ09=+/ \n\0"),
    }
}
fn some_bytes(g: &mut Rng, n: u64) -> Vec<u8> {
    (0..n).map(|_| byte(g)).collect()
}
fn length(g: &mut Rng) -> u64 {
    if g.chance(1, 8) { g.below(140) } else { g.below(9) }
}
/// Near a power of two.
fn near(g: &mut Rng, most: u64) -> i128 {
    (1i128 << g.below(most + 1)) + g.range(-2, 2) as i128
}
fn int_for(g: &mut Rng, c: char) -> i128 {
    match c {
        'U' => match g.below(12) {
            0 => -(near(g, 20).abs() + 1),
            1 => (1i128 << 32) + g.below(1 << 20) as i128,
            2 => g.below(1 << 31) as i128,
            _ => near(g, 31).clamp(0, (1 << 31) - 1),
        },
        'w' => match g.below(12) {
            0 => -near(g, 70).abs() - 1,
            _ => near(g, 77).abs(),
        },
        'R' => near(g, 64).clamp(0, (1 << 64) - 1),
        'r' => {
            let n = near(g, 63);
            (if g.chance(1, 2) { -n } else { n }).clamp(-(1 << 63), (1 << 63) - 1)
        }
        _ => match g.below(3) {
            0 => g.next() as i128,
            1 => g.next() as i64 as i128,
            _ => {
                let n = near(g, 64);
                (if g.chance(1, 2) { -n } else { n }).clamp(-(1 << 63), (1 << 64) - 1)
            }
        },
    }
}
fn float(g: &mut Rng) -> f64 {
    let s = g.below(2) << 63;
    // not below the smallest normal single
    let e = match g.below(6) {
        0 => return *g.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, 1.0, -1.5, f64::MAX, 3.4028235e38, 3.4028236e38]),
        1 => 897 + g.below(300),
        2 => 1140 + g.below(40),
        _ => 1000 + g.below(50),
    };
    let m = match g.below(5) {
        0 => g.next() & ((1 << 52) - 1),
        1 => (g.next() & ((1 << 23) - 1)) << 29,
        // ties between two singles
        2 => (g.next() & ((1 << 23) - 1)) << 29 | 1 << 28,
        3 => ((1 << 52) - 1) ^ g.below(1 << 30),
        _ => (1 << 28) + g.below(3) - 1,
    };
    f64::from_bits(s | e << 52 | m)
}
static TEXTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn letter(g: &mut Rng) -> char {
    let texts = TEXTS.load(std::sync::atomic::Ordering::Relaxed);
    match g.weighted(if texts { &[1, 1, 1, 1, 1, 8, 8] } else { &[6, 2, 4, 2, 2, 3, 3] }) {
        0 => *g.pick(&INTS),
        1 => *g.pick(&FLOATS),
        2 => *g.pick(&['a', 'A', 'Z']),
        3 => *g.pick(&['b', 'B']),
        4 => *g.pick(&['h', 'H']),
        5 => *g.pick(&['U', 'w', 'R', 'r']),
        _ => *g.pick(&['m', 'u']),
    }
}
fn mods(g: &mut Rng, c: char) -> i64 {
    if modifiable(c) && g.chance(1, 3) { *g.pick(&[1, 2, 4, 5, 6]) } else { 0 }
}
/// A directive with the values it takes.
fn dir_vals(g: &mut Rng, last: bool) -> (Dir, Vec<V>) {
    let c = letter(g);
    let m = mods(g, c);
    match c {
        'a' | 'A' | 'Z' | 'm' | 'u' => {
            let n = length(g);
            let s = some_bytes(g, n);
            let n = match g.below(4) {
                0 => NONE,
                1 => STAR,
                _ if g.chance(1, 6) => g.range(30, 80),
                _ => g.range(0, 12),
            };
            ((c, m, n), vec![if c < 'm' && g.chance(1, 10) { V::Nil } else { V::Str(s) }])
        }
        'b' | 'B' => {
            let n = g.below(20);
            let s: Vec<u8> = (0..n).map(|_| if g.chance(1, 8) { byte(g) } else { *g.pick(b"01") }).collect();
            let n = if g.chance(1, 3) { STAR } else { g.range(0, n as i64) };
            ((c, m, n), vec![V::Str(s)])
        }
        'h' | 'H' => {
            let n = g.below(9);
            let s: Vec<u8> = (0..n).map(|_| if g.chance(1, 8) { byte(g) } else { *g.pick(b"09afAFgZ") }).collect();
            let n = if g.chance(1, 3) { STAR } else { g.range(0, n as i64 + 4) };
            ((c, m, n), vec![V::Str(s)])
        }
        _ => {
            let n = match g.below(4) {
                0 => g.range(if matches!(c, 'U' | 'C') { 1 } else { 0 }, 3),
                1 if last => STAR,
                _ => NONE,
            };
            let k = match n {
                NONE => 1,
                STAR => g.below(4) as i64,
                n => n,
            };
            let vs = (0..k).map(|_| if FLOATS.contains(&c) { V::Float(float(g)) } else { V::Int(int_for(g, c)) }).collect();
            ((c, m, n), vs)
        }
    }
}

/// A template with its values, packed and taken apart again.
fn both(g: &mut Rng, ev: &mut Vec<String>) {
    let mut t: Vec<Dir> = vec![];
    let mut vals: Vec<V> = vec![];
    if g.chance(if TEXTS.load(std::sync::atomic::Ordering::Relaxed) { 3 } else { 1 }, 12) {
        let n = length(g);
        let s = some_bytes(g, n);
        let d = ('M', 0, *g.pick(&[NONE, STAR, 0, 1, 2, 5, 20, 72]));
        let (e, b) = pack(g, &[d], &[V::Str(s)], None);
        ev.push(e);
        if let Some(b) = b {
            ev.push(unpack(g, &[('M', 0, NONE)], &b, g_once(ev.len()), 0));
        }
        return;
    }
    let n = g.below(5);
    for k in 0..n {
        if g.chance(1, 6) {
            let c = *g.pick(&['x', 'X', '@']);
            t.push((c, 0, *g.pick(&[NONE, STAR, 0, 1, 2, 3, 6, 10])));
        }
        let (d, v) = dir_vals(g, k + 1 == n);
        t.push(d);
        vals.extend(v);
    }
    let mut good = true;
    match g.below(24) {
        0 => {
            vals.pop();
        }
        1 => vals.push(V::Nil),
        2 if !vals.is_empty() => {
            let k = g.below(vals.len() as u64) as usize;
            vals[k] = match g.below(3) {
                0 => V::Nil,
                1 => V::Str(b"1".to_vec()),
                _ => V::Int(1),
            };
        }
        3 if !t.is_empty() => {
            let k = g.below(t.len() as u64) as usize;
            match g.below(4) {
                0 => t[k].0 = *g.pick(&['%', 'y', '~', 'O']),
                1 => t[k] = (*g.pick(&['a', 'C', 'x', 'm', 'U', 'w', 'Z', 'h', 'b', '@']), *g.pick(&[1, 2, 4]), NONE),
                _ => t[k].2 = HUGE,
            }
            good = false;
        }
        _ => {}
    }
    // a number where a float is wanted is a matter of the numbers
    let mix = t.iter().any(|d| FLOATS.contains(&d.0)) && vals.iter().any(|v| !matches!(v, V::Float(_)));
    let mix = mix || (vals.iter().any(|v| matches!(v, V::Float(_))) && t.iter().any(|d| !FLOATS.contains(&d.0)));
    if mix {
        if t.len() != 1 {
            t.retain(|d| !FLOATS.contains(&d.0));
            vals.retain(|v| !matches!(v, V::Float(_)));
        } else if vals.iter().any(|v| matches!(v, V::Int(_))) {
            return;
        }
    }
    if !fits(&t, &vals) {
        return;
    }
    let buf = if g.chance(1, 4) {
        let n = g.below(6);
        Some(some_bytes(g, n))
    } else {
        None
    };
    let (e, b) = pack(g, &t, &vals, buf.as_deref());
    ev.push(e);
    let Some(b) = b else { return };
    if !good || buf.is_some() || t.iter().any(|d| "xX@".contains(d.0)) {
        return;
    }
    // as it was packed, then with other counts
    for round in 0..2 {
        let mut u = t.clone();
        if round == 1 {
            for d in u.iter_mut() {
                if g.chance(1, 3) && !"wRrumU".contains(d.0) {
                    d.2 = *g.pick(&[NONE, STAR, 0, 1, 2, 5, 9]);
                }
            }
        }
        if readable(&u, &b, round == 0) {
            let once = g.chance(1, 4);
            ev.push(unpack(g, &u, &b, once, 0));
        }
    }
}
fn g_once(n: usize) -> bool {
    n % 4 == 0
}
/// Whether a value stands where the conversions of other values would be asked.
fn fits(t: &[Dir], vals: &[V]) -> bool {
    let mut k = 0;
    for d in t {
        let n = match d.0 {
            'x' | 'X' | '@' => 0,
            'a' | 'A' | 'Z' | 'b' | 'B' | 'h' | 'H' | 'm' | 'u' | 'M' => {
                if let (Some(V::Str(s)), 'b' | 'B') = (vals.get(k), d.0) {
                    if d.2 == NONE && s.is_empty() || d.2 > s.len() as i64 {
                        return false;
                    }
                }
                if matches!((vals.get(k), d.0), (Some(V::Nil), 'b' | 'B')) {
                    return false;
                }
                1
            }
            c => {
                let n = match d.2 {
                    NONE => 1,
                    STAR => vals.len().saturating_sub(k),
                    HUGE => return true,
                    n => n as usize,
                };
                for v in vals.iter().skip(k).take(n) {
                    let ok = match (c, v) {
                        (_, V::Float(_)) => FLOATS.contains(&c),
                        (_, V::Nil | V::Str(_)) => true,
                        ('U', V::Int(n)) => *n < 1 << 31 || (*n >= 1 << 32 && *n < 1 << 62),
                        ('w', V::Int(_)) => true,
                        ('R', V::Int(n)) => (0..1 << 64).contains(n),
                        ('r', V::Int(n)) => i64::try_from(*n).is_ok(),
                        (_, V::Int(n)) => !FLOATS.contains(&c) && (-(1 << 63)..1 << 64).contains(n),
                    };
                    if !ok {
                        return false;
                    }
                }
                n
            }
        };
        k += n;
    }
    true
}
/// Whether the bytes are of the form the directives are defined for.
fn readable(t: &[Dir], b: &[u8], packed: bool) -> bool {
    for (k, d) in t.iter().enumerate() {
        let last = k + 1 == t.len();
        match d.0 {
            // the lines end where the bytes end
            'm' | 'u' if !last => return false,
            'u' if !packed || k > 0 => return false,
            'R' | 'r' if !packed => return false,
            'w' if !packed && b.len() > 10 => return false,
            // a string that filled its count has no end of its own
            'a' | 'A' | 'Z' | 'b' | 'B' | 'h' | 'H' | 'M' if packed && !last => {
                if t[k..].iter().any(|d| "wRrU".contains(d.0)) {
                    return false;
                }
            }
            _ => {}
        }
    }
    true
}
/// Bytes that nothing packed, directives that move.
fn loose(g: &mut Rng, ev: &mut Vec<String>) {
    let n = g.below(10);
    let b = some_bytes(g, n);
    let mut t: Vec<Dir> = vec![];
    for _ in 0..1 + g.below(4) {
        let c = match g.below(4) {
            0 => *g.pick(&['x', 'X', '@', '^']),
            1 => *g.pick(&['a', 'A', 'Z', 'Z']),
            2 => *g.pick(&['b', 'B', 'h', 'H', 'm', 'U', 'w']),
            _ => {
                if g.chance(1, 4) {
                    *g.pick(&FLOATS)
                } else {
                    *g.pick(&INTS)
                }
            }
        };
        let m = mods(g, c);
        let mut n = *g.pick(&[NONE, NONE, STAR, 0, 1, 2, 3, 5, 12]);
        if c == '@' && n == STAR || matches!(c, 'U' | 'C') && n == 0 {
            n = NONE;
        }
        t.push((c, m, n));
    }
    let once = g.chance(1, 3);
    if !once && g.chance(1, 16) {
        let k = g.below(t.len() as u64) as usize;
        t[k] = *g.pick(&[('%', 0, NONE), ('C', 2, NONE), ('a', 4, 3), ('C', 0, HUGE)]);
    }
    let base = g.below(5) as usize;
    ev.push(unpack(g, &t, &b, once, base));
}

pub fn random(g: &mut Rng, n: u64, len: u64, texts: bool, out: &mut dyn std::io::Write) {
    TEXTS.store(texts, std::sync::atomic::Ordering::Relaxed);
    for _ in 0..n {
        let mut ev = vec![];
        reset(0);
        while (ev.len() as u64) < len {
            if g.chance(2, 3) { both(g, &mut ev) } else { loose(g, &mut ev) }
        }
        writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
    }
}

/// Every string of up to `n` bytes of an alphabet through one directive.
pub fn table(g: &mut Rng, n: usize, part: u64, parts: u64, out: &mut dyn std::io::Write) {
    let sets: [(&[u8], &[Dir], usize); 6] = [
        (b"AQg/=\n", &[('m', 0, 0), ('m', 0, NONE)], n + 2),
        (b"\x41\x80\xbf\xc1\xc2\xe0\xa0\xf0\x8f\x90\xf8\x88\xfc\x84\xfe", &[('U', 0, STAR), ('U', 0, NONE)], n),
        (b"\x00\x20a\xff", &[('A', 0, STAR), ('Z', 0, STAR), ('A', 0, 2), ('Z', 0, 2)], n + 1),
        (b"\x00\x01\x7f\x80\xff", &[('w', 0, STAR), ('c', 0, STAR), ('s', 2, STAR), ('S', 1, 2), ('C', 0, 3)], n + 1),
        (b"\x00\x1e\x87\xf0", &[('b', 0, STAR), ('B', 0, 11), ('h', 0, STAR), ('H', 0, 3), ('h', 0, 3), ('b', 0, 11)], n),
        (b"\x80\x00\x7f\xff\x01", &[('e', 0, STAR), ('g', 0, NONE), ('l', 2, STAR), ('V', 0, STAR)], 4),
    ];
    let mut ev = vec![];
    let mut k = 0u64;
    for (set, dirs, n) in sets {
        let mut last: Vec<Vec<u8>> = vec![vec![]];
        for l in 0..=n {
            for p in &last {
                k += 1;
                if k % parts != part {
                    continue;
                }
                for d in dirs {
                    // then whatever is left
                    let t = [*d, ('a', 0, STAR)];
                    ev.push(unpack(g, if d.0 == 'm' { &t[..1] } else { &t }, p, false, 0));
                }
                if ev.len() >= 40 {
                    reset(0);
                    writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
                    ev.clear();
                }
            }
            if l < n {
                last = last.iter().flat_map(|p| set.iter().map(move |b| [&p[..], &[*b]].concat())).collect();
            }
        }
    }
    if part == 0 {
        // the limits of the lengths
        for c in ['U', 'w', 'R', 'r'] {
            for e in 0..=77u32 {
                for x in -1..=1i128 {
                    for s in [1, -1] {
                        let v = s * ((1i128 << e) + x);
                        let d = [(c, 0, NONE)];
                        if fits(&d, &[V::Int(v)]) {
                            let (e, b) = pack(g, &d, &[V::Int(v)], None);
                            ev.push(e);
                            if let Some(b) = b {
                                ev.push(unpack(g, &d, &b, false, 0));
                            }
                        }
                    }
                }
            }
            writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
            ev.clear();
        }
        // lines
        for c in ['m', 'u'] {
            for n in [STAR, NONE, 0, 1, 2, 3, 4, 5, 6, 7, 44, 45, 46, 47, 48, 60, 62, 63, 64, 66, 100] {
                for l in [0usize, 1, 2, 3, 4, 5, 6, 7, 44, 45, 46, 47, 48, 49, 63, 64, 66, 67, 100] {
                    let s: Vec<u8> = (0..l).map(|x| (x * 7 + 1) as u8).collect();
                    let (e, b) = pack(g, &[(c, 0, n)], &[V::Str(s)], None);
                    ev.push(e);
                    if let Some(b) = b {
                        ev.push(unpack(g, &[(c, 0, NONE)], &b, false, 0));
                    }
                }
                writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
                ev.clear();
            }
        }
    }
    if !ev.is_empty() {
        writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
    }
}
