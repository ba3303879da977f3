//! Interns names through the runtime's identifier table, from one or several
//! threads, and records identifiers and names. The table is global, so every
//! history runs in a process of its own.
#![allow(dead_code, unused_imports)]
pub use std::collections::HashMap;
pub mod ast {
    #[derive(Clone, Copy, PartialEq)]
    pub enum CmpKind {
        Eq,
        Ne,
        Lt,
        Le,
        Gt,
        Ge,
        TEq,
    }
}
pub mod bytecodegen {
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum BinOpK {
        Add,
        Sub,
        Mul,
        Div,
        BitOr,
        BitAnd,
        BitXor,
        Rem,
        Exp,
        Shl,
        Shr,
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum UnOpK {
        Pos,
        Neg,
        BitNot,
        Not,
    }
}
pub mod value {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum Encoding {
        Ascii8,
        Utf8,
        UsAscii,
        Utf16Le,
        Iso8859(u8),
        EucJp,
        Sjis(u8),
        Other(u8),
    }
}
#[path = "/repo/monoruby/src/id_table.rs"]
pub mod id_table;
use ast::CmpKind::*;
use bytecodegen::{BinOpK::*, UnOpK::*};
use common::*;
use id_table::*;
use std::io::Write;
use value::Encoding;

const ENC: [Encoding; 8] = [
    Encoding::Ascii8,
    Encoding::Utf8,
    Encoding::UsAscii,
    Encoding::Utf16Le,
    Encoding::Iso8859(1),
    Encoding::Iso8859(2),
    Encoding::Sjis(0),
    Encoding::Other(3),
];

/// a name: 0 followed by UTF-8 text, or 1 + encoding followed by bytes
fn key_of(id: IdentId) -> Vec<i64> {
    let n = id.get_ident_name_clone();
    let kind = match (n.as_str().is_some(), id.symbol_encoding()) {
        (true, None) => 0,
        (false, Some(e)) => ENC.iter().position(|x| *x == e).map_or(-1, |x| x as i64 + 1),
        _ => -1,
    };
    // all ways of reading the text must agree
    let mut v = vec![if n.is_utf8() == (kind == 0) { kind } else { -2 }];
    v.extend(n.as_bytes().iter().map(|b| *b as i64));
    v
}
fn bytes(x: &[i64]) -> Vec<u8> {
    x.iter().map(|b| *b as u8).collect()
}

fn apply(op: &Op) -> Res {
    let x = &op.1;
    let id = |i: i64| IdentId::from(i as u32);
    let n = |i: IdentId| ("ok", vec![u32::from(i) as i64]);
    let r = std::panic::catch_unwind(|| -> Res {
        match op.0 {
            "intern" if x[0] == 0 => {
                let s = String::from_utf8(bytes(&x[1..])).unwrap();
                n(IdentId::get_id(&s))
            }
            "internS" => {
                let s = String::from_utf8(bytes(&x[1..])).unwrap();
                n(IdentId::get_id_from_string(s))
            }
            "intern" => n(IdentId::get_id_from_bytes(bytes(&x[1..]), ENC[x[0] as usize - 1])),
            "name" => ("ok", key_of(id(x[0]))),
            "text" => ("ok", id(x[0]).get_name().bytes().map(|b| b as i64).collect()),
            "compare" => ("ok", vec![id(x[0]).compare(&id(x[1])) as i64]),
            "ivar" => n(IdentId::add_ivar_prefix(id(x[0]))),
            "assign" => n(IdentId::add_assign_postfix(id(x[0]))),
            "special" => {
                let i = id(x[0]);
                let mut v = vec![i.is_special_gvar() as i64];
                if v[0] == 1 {
                    v.extend(i.special_gvar_name().bytes().map(|b| b as i64));
                }
                ("ok", v)
            }
            "op" => n([
                Add.into(),
                Sub.into(),
                Mul.into(),
                Div.into(),
                BitOr.into(),
                BitAnd.into(),
                BitXor.into(),
                Rem.into(),
                Exp.into(),
                Shl.into(),
                Shr.into(),
                Neg.into(),
                Pos.into(),
                BitNot.into(),
                Not.into(),
                Eq.into(),
                Ne.into(),
                Lt.into(),
                Le.into(),
                Gt.into(),
                Ge.into(),
                TEq.into(),
            ][x[0] as usize - 1]),
            "count" => ("ok", IdentId::all_symbols().iter().map(|i| u32::from(*i) as i64).collect()),
            _ => unreachable!(),
        }
    });
    r.unwrap_or(("panic", vec![]))
}
fn ev(op: Op) -> (String, Res) {
    about_to(|| op_json(&op));
    let r = apply(&op);
    (format!("{{\"o\":{},\"r\":{}}}", op_json(&op), res_json(&r)), r)
}

/// names: fresh ones, predefined ones, neighbours of these, multibyte, binary
fn name(g: &mut Rng, pool: u64) -> Vec<i64> {
    const KNOWN: [&str; 26] = [
        "initialize", "new", "+", "-@", "[]=", "$?", "$0", "$PROGRAM_NAME", "$stdout", "$-v", "$-x", "respond_to_missing?", "hash", "", "a", "@a",
        "a=", "@a=", "$FILENAME", "é", "日本", "\u{fffd}", "$\\", "to_s", "/main", "$;",
    ];
    match g.below(10) {
        0..4 => {
            let mut v = vec![0];
            v.extend(format!("v{}", g.below(pool)).bytes().map(|b| b as i64));
            v
        }
        4..7 => {
            let mut v = vec![0];
            v.extend(g.pick(&KNOWN).bytes().map(|b| b as i64));
            v
        }
        _ => {
            let mut v = vec![g.range(1, 8)];
            let b: &[u8] = *g.pick(&[b"a".as_slice(), b"\xff", b"\xe3\x81", b"v1", b"", b"\x80\x81"]);
            v.extend(b.iter().map(|b| *b as i64));
            v
        }
    }
}

fn single(g: &mut Rng, len: u64) -> Vec<String> {
    let mut out = vec![];
    let mut ids: Vec<i64> = vec![1, 2, 50, 79, 80, 88, 95];
    let known = |id: i64| -> bool { id >= 1 };
    let pool = *g.pick(&[3, 20, 60]);
    for _ in 0..len {
        let op: Op = match g.below(14) {
            0..6 => {
                let k = name(g, pool);
                if k[0] == 0 && g.chance(1, 3) { ("internS", k) } else { ("intern", k) }
            }
            6 | 7 => ("name", vec![*g.pick(&ids)]),
            8 => ("text", vec![*g.pick(&ids)]),
            9 => ("compare", vec![*g.pick(&ids), *g.pick(&ids)]),
            10 => ("ivar", vec![*g.pick(&ids)]),
            11 => ("assign", vec![*g.pick(&ids)]),
            12 => ("special", vec![*g.pick(&ids)]),
            _ => ("op", vec![g.range(1, 22)]),
        };
        let id_op = matches!(op.0, "intern" | "internS" | "ivar" | "assign" | "op");
        let (s, r) = ev(op);
        // what a name is comes before anything that depends on it
        if id_op && r.0 == "ok" && known(r.1[0]) && ids.len() < 200 {
            ids.push(r.1[0]);
        }
        out.push(s);
    }
    out
}

fn threads(g: &mut Rng, len: u64) -> Vec<String> {
    let lists: Vec<Vec<Op>> = {
        let pool = *g.pick(&[20, 100]);
        let base: Vec<Vec<i64>> = (0..len).map(|_| name(g, pool)).collect();
        (0..4)
            .map(|_| {
                let shift = g.below(3) as usize;
                let mut l: Vec<Op> = base.iter().skip(shift).cloned().map(|k| ("intern", k)).collect();
                for o in &mut l {
                    if o.1[0] == 0 && g.chance(1, 4) {
                        o.0 = "internS";
                    }
                }
                l
            })
            .collect()
    };
    let gate = std::sync::Arc::new(std::sync::Barrier::new(4));
    let hs: Vec<_> = lists
        .into_iter()
        .map(|l| {
            let gate = gate.clone();
            std::thread::spawn(move || {
                gate.wait();
                let mut out = vec![];
                for op in l {
                    let r = apply(&op);
                    let mut look = None;
                    if r.0 == "ok" {
                        let q: Op = ("name", vec![r.1[0]]);
                        let a = apply(&q);
                        look = Some((q, a));
                    }
                    out.push((op, r));
                    out.extend(look);
                }
                out
            })
        })
        .collect();
    let mut all = vec![];
    for h in hs {
        all.extend(h.join().unwrap_or_default());
    }
    all.iter().map(|(o, r)| format!("{{\"o\":{},\"r\":{}}}", op_json(o), res_json(r))).collect()
}

/// finally every identifier there is, with its name
fn sweep(out: &mut Vec<String>) {
    let (s, r) = ev(("count", vec![]));
    out.push(s);
    for i in r.1 {
        out.push(ev(("name", vec![i])).0);
        out.push(ev(("special", vec![i])).0);
    }
}

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, fl: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn main() {
    let args = Args::new();
    quiet_panics();
    crash_report();
    let seed = args.num("seed", 1);
    let n = args.num("n", 20);
    let len = args.num("len", 150);
    let path = args.get("out").expect("--out").to_string();
    let mode = args.mode().to_string();
    std::fs::write(&path, "").unwrap();
    for i in 0..n {
        let pid = unsafe { fork() };
        if pid == 0 {
            watchdog(30);
            let mut g = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
            let mut out = if mode == "threads" { threads(&mut g, len) } else { single(&mut g, len) };
            sweep(&mut out);
            let mut f = std::fs::OpenOptions::new().append(true).open(&path).unwrap();
            f.write_all(format!("{{\"ev\":[{}]}}\n", out.join(",")).as_bytes()).unwrap();
            unsafe { _exit(0) }
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if st != 0 {
            if st & 0x7f != 0 {
                // died of a signal: so do we
                unsafe {
                    unsafe extern "C" {
                        fn signal(sig: i32, h: usize) -> usize;
                        fn raise(sig: i32) -> i32;
                    }
                    signal(st & 0x7f, 0);
                    raise(st & 0x7f);
                }
            }
            std::process::exit((st >> 8) & 0xff);
        }
    }
}
