//! Asks the runtime's glob matcher and brace expander and records the
//! answers.  Characters are recorded as their code points.
#![allow(dead_code)]
#[path = "/repo/monoruby/src/builtins/fnmatch.rs"]
mod fnmatch;
use common::*;
use std::io::Write;

fn codes(s: &str) -> String {
    ints(&s.chars().map(|c| c as i64).collect::<Vec<_>>())
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| codes(s)).collect::<Vec<_>>().join(","))
}
fn words(alpha: &[char], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for c in alpha {
                let mut s = out[i].clone();
                s.push(*c);
                out.push(s);
            }
        }
        from = to;
    }
    out
}

/// one pattern under several flag sets against several names; an event's
/// result lists the names (by position) that match
fn ask(out: &mut dyn Write, pat: &str, flags: &[u32], names: &[String], shared: bool) {
    let mut ev = vec![];
    for f in flags {
        about_to(|| format!("fnmatch {pat:?} flags {f}"));
        let r = std::panic::catch_unwind(|| {
            names
                .iter()
                .enumerate()
                .filter(|(_, n)| fnmatch::fnmatch(pat, n, *f))
                .map(|(i, _)| i as i64 + 1)
                .collect::<Vec<_>>()
        });
        let r: Res = match r {
            Ok(v) => ("ok", v),
            Err(_) => ("panic", vec![]),
        };
        ev.push(format!("{{\"o\":[\"match\",[{f}]],\"r\":{}}}", res_json(&r)));
    }
    let n = if shared { "[]".into() } else { list(names) };
    writeln!(out, "{{\"p\":{},\"n\":{},\"ev\":[{}]}}", codes(pat), n, ev.join(",")).unwrap();
}

fn expand(out: &mut dyn Write, pat: &str) {
    let mut ev = vec![];
    for noescape in [false, true] {
        about_to(|| format!("expand_braces {pat:?}"));
        let r = std::panic::catch_unwind(|| fnmatch::expand_braces(pat, noescape));
        ev.push(match r {
            Ok(v) => format!("{{\"o\":[\"expand\",[{}]],\"r\":[\"ok\",{}]}}", noescape as i64, list(&v)),
            Err(_) => format!("{{\"o\":[\"expand\",[{}]],\"r\":[\"panic\",[]]}}", noescape as i64),
        });
    }
    writeln!(out, "{{\"p\":{},\"n\":[],\"ev\":[{}]}}", codes(pat), ev.join(",")).unwrap();
}

/// a random pattern together with names that come from it
fn rnd_pattern(g: &mut Rng, depth: u32, pathname: bool) -> Vec<String> {
    let mut v = vec![];
    let letters = ["a", "b", "B", "c", ".", "-", "é", "É", "]", "!", "こ"];
    for _ in 0..g.range(1, 6) {
        match g.below(14) {
            0..4 => v.push(g.pick(&letters).to_string()),
            4 | 5 => v.push("*".into()),
            6 => v.push("?".into()),
            7 => {
                let mut s = String::from("[");
                if g.chance(1, 3) {
                    s.push_str(*g.pick(&["!", "^"]));
                }
                for _ in 0..g.range(0, 3) {
                    s.push_str(*g.pick(&["a", "b", "z", ".", "-", "a-c", "A-Z", "a-", "b-a", "\\]", "\\", "\\a-\\c", "[", "!", "/", "é"]));
                }
                if !g.chance(1, 8) {
                    s.push(']');
                }
                v.push(s);
            }
            8 => v.push(format!("\\{}", g.pick(&["a", "*", "?", "[", "\\", "", ".", "{", "/"]))),
            9 if pathname => v.push("/".into()),
            10 if pathname => v.push("**/".into()),
            11 if depth > 0 => {
                let k = g.range(1, 3);
                let alts: Vec<String> = (0..k).map(|_| rnd_pattern(g, depth - 1, false).concat()).collect();
                v.push(format!("{{{}}}", alts.join(",")));
            }
            12 => v.push((*g.pick(&[".", "**", "{", "}", ",", "*.", "/.", "*/"])).to_string()),
            _ => v.push(g.pick(&letters).to_string()),
        }
    }
    v
}
fn name_of(g: &mut Rng, parts: &[String]) -> String {
    let mut s = String::new();
    for p in parts {
        if g.chance(1, 15) {
            continue;
        }
        match p.as_str() {
            "*" => {
                for _ in 0..g.range(0, 3) {
                    s.push_str(*g.pick(&["a", "b", ".", "c", "/", "é"]));
                }
            }
            "?" => s.push_str(*g.pick(&["a", ".", "/", "é", "こ"])),
            "**/" => {
                for _ in 0..g.range(0, 2) {
                    s.push_str(*g.pick(&["a/", "b.c/", ".d/", "/"]));
                }
            }
            "**" => s.push_str(*g.pick(&["", "ab", "a/b"])),
            p if p.starts_with('[') => s.push_str(*g.pick(&["a", "b", "-", ".", "]", "B", "z", "é", "\\", "["])),
            p if p.starts_with('\\') => s.push_str(if g.chance(1, 3) { p } else { &p[1..] }),
            p if p.starts_with('{') => {
                let inner: Vec<&str> = p.trim_matches(|c| c == '{' || c == '}').split(',').collect();
                s.push_str(&g.pick(&inner).replace(['*', '?'], "a"));
            }
            p => {
                if g.chance(1, 5) {
                    s.push_str(&p.to_uppercase())
                } else {
                    s.push_str(p)
                }
            }
        }
    }
    s
}

fn main() {
    let args = Args::new();
    quiet_panics();
    crash_report();
    watchdog(30);
    let mut out = args.out();
    let seed = args.num("seed", 1);
    match args.mode() {
        // every pattern up to --len over one of several alphabets against
        // every name up to --nlen
        "small" => {
            let sets: [(&str, &str); 5] = [("a*?./", "ab./"), ("a*.[]\\", "a.]\\"), ("a-b[]!", "abc-"), ("*/.a", "a./"), ("aA[-]", "aAb-")];
            let (pa, na) = sets[args.num("set", 0) as usize];
            let names = words(&na.chars().collect::<Vec<_>>(), args.num("nlen", 3) as usize);
            let flags: Vec<u32> = args.get("flags").unwrap().split(',').map(|x| x.parse().unwrap()).collect();
            // the first line carries the shared list of names
            for (i, p) in words(&pa.chars().collect::<Vec<_>>(), args.num("len", 3) as usize).iter().enumerate() {
                ask(&mut out, p, &flags, &names, i > 0);
            }
        }
        "gen" => {
            for i in 0..args.num("n", 100) {
                let mut g = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                let path = g.chance(1, 2);
                let parts = rnd_pattern(&mut g, 1, path);
                let names: Vec<String> = (0..12).map(|_| name_of(&mut g, &parts)).collect();
                let mut flags: Vec<u32> = (0..6).map(|_| g.below(32) as u32).collect();
                if path {
                    flags.iter_mut().take(4).for_each(|f| *f |= 2);
                }
                ask(&mut out, &parts.concat(), &flags, &names, false);
            }
        }
        "braces-small" => {
            for p in words(&['{', '}', ',', '\\', 'a'], args.num("len", 6) as usize) {
                expand(&mut out, &p);
            }
        }
        "braces-gen" => {
            for i in 0..args.num("n", 100) {
                let mut g = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                let n = g.range(6, 16);
                let mut p = String::new();
                let mut depth = 0;
                let mut groups = 0;
                for _ in 0..n {
                    match g.below(10) {
                        0 | 1 if groups < 5 => {
                            p.push('{');
                            depth += 1;
                            groups += 1;
                        }
                        2 | 3 if depth > 0 || g.chance(1, 6) => {
                            p.push('}');
                            depth = (depth - 1).max(0);
                        }
                        4 | 5 if p.matches(',').count() < 9 => p.push(','),
                        6 if g.chance(1, 2) => p.push('\\'),
                        _ => p.push(*g.pick(&['a', 'b', '*', '/', 'é'])),
                    }
                }
                while depth > 0 && g.chance(5, 6) {
                    p.push('}');
                    depth -= 1;
                }
                expand(&mut out, &p);
            }
        }
        m => panic!("unknown mode {m}"),
    }
}
