//! Drives the runtime's strings. Five numbered strings live in slots that
//! are the roots of the stand-in collector; after every step all of them
//! are shown.
#![allow(dead_code, unused_imports)]
use common::*;
use std::io::Write as _;
mod packing;
mod shim;
pub mod smallvec;
#[path = "/repo/monoruby/src/value/rvalue"]
pub mod rvalue {
    pub use crate::shim::*;
    pub use crate::smallvec;
    pub mod string;
}
pub mod value {
    pub use crate::shim::*;
    pub mod rvalue {
        pub use crate::rvalue::*;
    }
}
use rvalue::string::*;
use shim::*;

const SLOTS: usize = 5;
const ENCS: [Encoding; 12] = [
    Encoding::Ascii8,
    Encoding::Utf8,
    Encoding::UsAscii,
    Encoding::Utf16Le,
    Encoding::Utf16Be,
    Encoding::Utf32Le,
    Encoding::Utf32Be,
    Encoding::Iso8859(1),
    Encoding::EucJp,
    Encoding::Sjis(0),
    Encoding::Other(0),
    Encoding::NamedByte(0),
];
fn enc_no(e: Encoding) -> i64 {
    ENCS.iter().position(|x| *x == e).map_or(-1, |n| n as i64)
}
fn cr_no(c: CodeRange) -> i64 {
    c as u8 as i64
}
fn slot(n: i64) -> Option<Value> {
    HEAP.with(|h| h.borrow().roots[n as usize])
}
fn val(n: i64) -> Value {
    slot(n).expect("no such string")
}
fn put(n: i64, v: Value) {
    HEAP.with(|h| h.borrow_mut().roots[n as usize] = Some(v))
}
fn bytes(a: &[i64]) -> Vec<u8> {
    a.iter().map(|x| *x as u8).collect()
}
fn done(r: Result<()>) -> Res {
    match r {
        Ok(()) => ("ok", vec![]),
        Err(_) => ("err", vec![]),
    }
}
fn opt(r: Option<usize>) -> Res {
    match r {
        Some(n) => ("val", vec![n as i64]),
        None => ("none", vec![]),
    }
}
fn one(n: i64) -> Res {
    ("val", vec![n])
}
const OK: Res = ("ok", vec![]);

fn run(o: &Op) -> Res {
    let a = &o.1;
    let s = |k: usize| val(a[k]).as_rstring_inner();
    let m = || val(a[0]).as_rstring_inner_mut();
    let new = |i: RStringInner| {
        put(a[0], Value::string_from_inner(i));
        OK
    };
    match o.0 {
        "new" => {
            let b = bytes(&a[3..]);
            let e = ENCS[a[2] as usize];
            new(match a[1] {
                0 => RStringInner::from_encoding(&b, e),
                1 => RStringInner::from_encoding_scanned(&b, e),
                2 => RStringInner::from_vec_scanned(b),
                3 => {
                    let mut i = RStringInner::with_encoding_capacity(e, 12);
                    i.extend_from_slice_merge_cr(&b);
                    i
                }
                4 => RStringInner::from_vec_cr(b, e, CodeRange::Unknown),
                5 => RStringInner::from_mapped_utf8(&map_bytes_to_utf8(&b), e),
                6 => RStringInner::from_str_scanned(std::str::from_utf8(&b).unwrap()),
                7 => RStringInner::from_string_scanned(String::from_utf8(b).unwrap()),
                8 => RStringInner::from_str(std::str::from_utf8(&b).unwrap()),
                9 => RStringInner::from_string(String::from_utf8(b).unwrap()),
                _ => unreachable!(),
            })
        }
        "sub" => {
            put(a[0], string_substring(val(a[1]), a[2] as usize, a[3] as usize));
            OK
        }
        "subc" => new(RStringInner::from_substring(s(1), a[2] as usize, a[3] as usize)),
        "dup" => new(s(1).clone()),
        "snap" => {
            put(a[0], string_snapshot(val(a[1])));
            OK
        }
        "freeze" => {
            val(a[0]).set_frozen();
            OK
        }
        "share" => {
            share_string_buffer(&mut val(a[0]));
            OK
        }
        "detach" => {
            m().detach();
            OK
        }
        "nul" => {
            let i = m();
            let n = i.len();
            let p = i.nul_terminated_buf_ptr();
            let good = unsafe { *p.add(n) == 0 && std::slice::from_raw_parts(p, n) == i.as_bytes() };
            if good { OK } else { ("bad", vec![]) }
        }
        "gc" => {
            collect(a[0] != 0);
            OK
        }
        "stress" => {
            HEAP.with(|h| h.borrow_mut().stress = a[0] != 0);
            OK
        }
        "drop" => {
            HEAP.with(|h| h.borrow_mut().roots[a[0] as usize] = None);
            OK
        }
        "setb" => {
            m().set_byte(a[1] as usize, a[2] as u8);
            OK
        }
        "setenc" => {
            m().set_encoding(ENCS[a[1] as usize]);
            OK
        }
        // the callers copy an argument that is the receiver
        "ext" => {
            if a[0] == a[1] {
                let c = s(1).clone();
                done(m().extend(&c, &Store))
            } else {
                done(m().extend(s(1), &Store))
            }
        }
        "extc" => done(m().extend_from_slice_checked(&bytes(&a[1..]))),
        "extn" => {
            m().extend_from_slice_no_validate(&bytes(&a[1..]));
            OK
        }
        "extm" => {
            m().extend_from_slice_merge_cr(&bytes(&a[1..]));
            OK
        }
        "splice" => {
            let c = s(3).clone();
            let w = if a[0] == a[3] { &c } else { s(3) };
            done(m().bytesplice_with(a[1] as usize, a[2] as usize, w, &Store))
        }
        "rep" => new(s(1).repeat(a[2] as usize)),
        "rev" => new(s(1).reverse()),
        "scrub" => match s(1).scrub(s(2)) {
            Ok(i) => new(i),
            Err(_) => ("err", vec![]),
        },
        "range" => {
            let r = s(0).get_range(a[1] as usize, a[2] as usize);
            ("val", vec![r.start as i64, r.end as i64])
        }
        "class" => {
            let c = cr_no(s(0).code_range());
            if s(0).is_ascii_only() != (c == 1) || s(0).is_valid_encoding() != (c <= 2) {
                return ("inconsistent", vec![c]);
            }
            one(c)
        }
        "len" => one(s(0).char_length() as i64),
        "chars" => {
            let i = s(0);
            let mut at = 0;
            let mut w = vec![];
            for c in i.iter_char_bytes() {
                if c != &i.as_bytes()[at..at + c.len()] {
                    return ("astray", vec![at as i64]);
                }
                at += c.len();
                w.push(c.len() as i64);
            }
            ("val", w)
        }
        "ci" => opt(s(0).conv_char_index(a[1])),
        "ci2" => opt(s(0).conv_char_index2(a[1])),
        "b2c" => match s(0).byte_to_char_index(a[1] as usize) {
            Ok(n) => one(n as i64),
            Err(_) => ("err", vec![]),
        },
        "compat" => match s(0).compatible_encoding(s(1)) {
            Some(e) => one(enc_no(e)),
            None => ("none", vec![]),
        },
        "cmp" => {
            let (x, y) = (s(0), s(1));
            ("val", vec![x.cmp(y) as i8 as i64, (x == y) as i64])
        }
        "first" => match s(0).first_code() {
            Ok(n) => one(n as i64),
            Err(_) => ("err", vec![]),
        },
        "utf8" => match s(0).check_utf8() {
            Ok(t) => if t.as_bytes() == s(0).as_bytes() { OK } else { ("bad", vec![]) },
            Err(_) => ("err", vec![]),
        },
        "mapped" => one(s(0).needs_byte_mapping() as i64),
        n => panic!("{n}"),
    }
}

fn show(class: bool) -> String {
    let mut x = vec![];
    for n in 0..SLOTS as i64 {
        if let Some(v) = slot(n) {
            let i = v.as_rstring_inner();
            // asking a copy leaves the original's cache alone
            let c = if class { cr_no(i.clone().code_range()) } else { -1 };
            let mut row = vec![n, enc_no(i.encoding()), c, v.is_frozen() as i64];
            row.extend(i.as_bytes().iter().map(|b| *b as i64));
            x.push(ints(&row));
        }
    }
    format!("[{}]", x.join(","))
}

struct Hist {
    ev: Vec<String>,
    class: bool,
}
impl Hist {
    fn new(class: bool) -> Self {
        reset(SLOTS);
        Hist { ev: vec![], class }
    }
    fn step(&mut self, o: Op) -> bool {
        about_to(|| format!("{}", op_json(&o)));
        let r = std::panic::catch_unwind(|| run(&o)).unwrap_or(("panic", vec![]));
        let s = std::panic::catch_unwind(|| show(self.class)).unwrap_or("[[-1,0,0,0]]".into());
        let go = r.0 != "panic" && !s.starts_with("[[-1");
        self.ev.push(format!("{{\"o\":{},\"r\":{},\"s\":{}}}", op_json(&o), res_json(&r), s));
        go
    }
    fn write(&self, out: &mut dyn std::io::Write) {
        writeln!(out, "{{\"ev\":[{}]}}", self.ev.join(",")).unwrap();
    }
}

/// Characters and fragments of the encodings.
const PIECES: [&[u8]; 34] = [
    b"A", b"z", b" b", b"q0", b"~", b"\0",
    b"\xC3\xA9", b"\xC3\xA9", b"\xDF\xBF", b"\xE3\x81\x82", b"\xE0\xA0\x80", b"\xED\x9F\xBF", b"\xEF\xBF\xBD",
    b"\xF0\x9F\x98\x80", b"\xF4\x8F\xBF\xBF", b"\x80", b"\xC3", b"\xE3\x81", b"\xF0\x9F\x98", b"\xED\xA0\x80",
    b"\xC0\xAF", b"\xF4\x90\x80\x80", b"\xFF", b"\xA4\xA2", b"\x8E\xB1", b"\x8F\xB0\xA1", b"\x8E", b"\x8F\xB0",
    b"\x82\xA0", b"\xB1", b"\x83A", b"\x83", b"A\0", b"\0\0\0A",
];
const EDGE: [u8; 22] = [
    0x00, 0x41, 0x7F, 0x80, 0x8E, 0x8F, 0x9F, 0xA0, 0xA1, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFC, 0xFE, 0xFF,
];
/// Well-formed characters of one encoding.
fn own(g: &mut Rng, e: i64) -> &'static [u8] {
    let p: &[&'static [u8]] = match e {
        1 => &[b"\xC3\xA9", b"\xE3\x81\x82", b"\xF0\x9F\x98\x80", b"a"],
        2 => &[b"a", b"bc"],
        3 | 4 => &[b"a\0", b"\0b", b"\x42\x30"],
        5 | 6 => &[b"a\0\0\0", b"\0\0\0b"],
        8 => &[b"\xA4\xA2", b"\x8E\xB1", b"\x8F\xB0\xA1", b"a"],
        9 => &[b"\x82\xA0", b"\xB1", b"\x83A", b"a"],
        _ => &[b"\xE9", b"\x80", b"a"],
    };
    *g.pick(p)
}
fn text(g: &mut Rng, e: i64, n: u64) -> Vec<i64> {
    let mut v: Vec<u8> = vec![];
    let style = g.below(4);
    for _ in 0..n {
        match style {
            0 => v.extend_from_slice(*g.pick(&PIECES)),
            1 => v.push(*g.pick(b"abcxyz01")),
            2 => v.extend_from_slice(own(g, e)),
            _ => {
                if g.chance(3, 4) {
                    v.extend_from_slice(own(g, e))
                } else {
                    v.extend_from_slice(*g.pick(&PIECES))
                }
            }
        }
    }
    v.truncate(24);
    v.into_iter().map(|b| b as i64).collect()
}
fn encoding(g: &mut Rng) -> i64 {
    if g.chance(1, 2) { 1 } else { g.below(12) as i64 }
}

fn random_op(g: &mut Rng, focus: &str) -> Op {
    let live: Vec<i64> = (0..SLOTS as i64).filter(|n| slot(*n).is_some()).collect();
    let d = g.below(SLOTS as u64) as i64;
    let new = |g: &mut Rng| -> Op {
        let e = encoding(g);
        let n = g.below(9);
        let t = text(g, e, n);
        let b = bytes(&t);
        let ascii8 = e == 0;
        let k = if e == 1 && std::str::from_utf8(&b).is_ok() { *g.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]) } else { *g.pick(&[0, 1, 2, 3, 4, 5]) };
        let _ = ascii8;
        let mut a = vec![d, k, e];
        a.extend(t);
        ("new", a)
    };
    if live.len() < 2 || g.chance(1, 12) {
        return new(g);
    }
    let v = *g.pick(&live);
    let w = *g.pick(&live);
    let x = val(v).as_rstring_inner();
    let len = x.len() as i64;
    // mostly at the edges of characters
    let cut = |g: &mut Rng| -> i64 {
        if g.chance(1, 3) {
            return g.range(0, len);
        }
        let mut at = vec![0];
        let mut p = 0;
        for c in x.iter_char_bytes() {
            p += c.len() as i64;
            at.push(p);
        }
        *g.pick(&at)
    };
    let (s, e) = {
        let (a, b) = (cut(g), cut(g));
        (a.min(b), a.max(b))
    };
    let frozen = val(v).is_frozen();
    let mutable = !frozen;
    let e2 = encoding(g);
    let more = |g: &mut Rng| {
        let e = if g.chance(2, 3) { enc_no(x.encoding()) } else { 1 };
        let n = g.below(4);
        let mut a = vec![v];
        a.extend(text(g, e, n));
        a
    };
    loop {
        let weights: &[u32] = match focus {
            //        sub subc dup snap frz share det nul gc strs drop setb enc ext extc extn extm spl rep rev scr query
            "class" => &[4, 3, 2, 1, 1, 1, 1, 1, 1, 0, 1, 4, 3, 6, 3, 2, 3, 8, 3, 4, 3, 8],
            "share" => &[9, 1, 5, 4, 2, 4, 2, 2, 5, 1, 4, 5, 2, 4, 1, 1, 2, 3, 1, 1, 1, 1],
            _ => &[3, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 3, 4, 3, 1, 2, 1, 3, 2, 2, 1, 24],
        };
        let k = g.weighted(weights);
        let o: Op = match k {
            0 => ("sub", vec![d, v, s, e]),
            1 => ("subc", vec![d, v, s, e]),
            2 => ("dup", vec![d, v]),
            3 => ("snap", vec![d, v]),
            4 => ("freeze", vec![v]),
            5 => ("share", vec![v]),
            6 if mutable => ("detach", vec![v]),
            7 if mutable => ("nul", vec![v]),
            8 => ("gc", vec![g.chance(1, 3) as i64]),
            9 => ("stress", vec![g.below(2) as i64]),
            10 if live.len() > 2 => ("drop", vec![v]),
            11 if mutable && len > 0 => {
                let b = if g.chance(1, 2) { *g.pick(b"axz") } else { *g.pick(&EDGE) };
                ("setb", vec![v, g.range(0, len - 1), b as i64])
            }
            12 if mutable => ("setenc", vec![v, e2]),
            13 if mutable => ("ext", vec![v, w]),
            14 if mutable => ("extc", more(g)),
            15 if mutable => ("extn", more(g)),
            16 if mutable => ("extm", more(g)),
            17 if mutable => ("splice", vec![v, s, e - s, w]),
            18 if len < 12 => ("rep", vec![d, v, g.range(0, 3)]),
            19 => ("rev", vec![d, v]),
            20 => ("scrub", vec![d, v, w]),
            21 => {
                let i = g.range(0, 6);
                match g.below(if focus == "class" { 3 } else { 12 }) {
                    0 => ("class", vec![v]),
                    1 => ("compat", vec![v, w]),
                    2 => ("utf8", vec![v]),
                    3 => ("len", vec![v]),
                    4 => ("chars", vec![v]),
                    5 => ("ci", vec![v, g.range(-8, 9)]),
                    6 => ("ci2", vec![v, g.range(-8, 9)]),
                    7 => ("b2c", vec![v, s]),
                    8 => ("cmp", vec![v, w]),
                    9 => ("first", vec![v]),
                    10 => ("mapped", vec![v]),
                    _ => ("range", vec![v, i, g.range(0, 5)]),
                }
            }
            _ => continue,
        };
        // nothing grows without end
        let n = match o.0 {
            "ext" | "splice" => len + val(w).as_rstring_inner().len() as i64,
            "scrub" => len * (1 + val(w).as_rstring_inner().len() as i64),
            "rep" => len * o.1[2],
            _ => len,
        };
        if n > 40 && !matches!(o.0, "drop" | "gc" | "freeze" | "stress" | "sub" | "subc") {
            return new(g);
        }
        return o;
    }
}

fn main() {
    let a = Args::new();
    quiet_panics();
    watchdog(20);
    crash_report();
    let mut out = a.out();
    let mut g = Rng::new(a.num("seed", 1));
    match a.mode() {
        "gen" => {
            let focus = a.get("focus").unwrap_or("class").to_string();
            for _ in 0..a.num("n", 100) {
                let mut h = Hist::new(focus == "class");
                for _ in 0..a.num("len", 40) {
                    let o = random_op(&mut g, &focus);
                    if !h.step(o) {
                        break;
                    }
                }
                h.write(&mut out);
            }
        }
        // every string of up to `len` bytes over the edges of the tables, or
        // of that length behind a lead byte in the encodings that have some
        "table" => {
            let n = a.num("len", 2) as usize;
            let part = a.num("part", 0);
            let parts = a.num("parts", 1);
            let leads = a.num("leads", 0) == 1;
            let encs: &[i64] = if leads { &[1, 8, 9] } else { &[0, 1, 2, 3, 5, 7, 8, 9, 10, 11] };
            let mut all: Vec<Vec<u8>> = vec![vec![]];
            let mut last = all.clone();
            for _ in 0..n {
                let mut next = vec![];
                for p in &last {
                    for b in EDGE {
                        let mut q = p.clone();
                        q.push(b);
                        next.push(q);
                    }
                }
                all.extend(next.iter().cloned());
                last = next;
            }
            if leads {
                all = [0x8f, 0xe0, 0xed, 0xf0, 0xf4]
                    .iter()
                    .flat_map(|l| last.iter().map(|p| [&[*l], &p[..]].concat()))
                    .collect();
            }
            for (k, b) in all.iter().enumerate() {
                if k as u64 % parts != part {
                    continue;
                }
                let b: Vec<i64> = b.iter().map(|x| *x as i64).collect();
                let mut h = Hist::new(true);
                for &e in encs {
                    let mut x = vec![0, 1, e];
                    x.extend(&b);
                    h.step(("new", x));
                    h.step(("len", vec![0]));
                    h.step(("chars", vec![0]));
                    h.step(("rev", vec![1, 0]));
                    h.step(("new", vec![2, 0, e, 63]));
                    h.step(("scrub", vec![2, 0, 2]));
                }
                h.write(&mut out);
            }
        }
        "packs" => packing::random(&mut g, a.num("n", 100), a.num("len", 40), a.get("focus") == Some("texts"), &mut out),
        "packtab" => packing::table(&mut g, a.num("len", 3) as usize, a.num("part", 0), a.num("parts", 1), &mut out),
        m => panic!("{m}"),
    }
}
