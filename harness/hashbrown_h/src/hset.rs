//! HashSet under histories of operations.
use crate::el::*;
use crate::hmap::{key, IdBuild, Key};
use common::{about_to, ints, op_json, res_json, Op, Res, Rng};
use hashbrown::hash_set::Entry;
use hashbrown::{HashSet, RubyEql};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

type S = HashSet<Key, (), (), i64, IdBuild>;
pub struct Two {
    a: S,
    b: S,
}
fn fresh_set(c: usize) -> S {
    HashSet::with_capacity_and_hasher(c, IdBuild)
}
macro_rules! run_iter {
    ($it:expr, $steps:expr, $stop:expr) => {{
        let mut it = $it;
        let len0 = it.len() as i64;
        let mut out: Vec<i64> = vec![];
        for _ in 0..$steps {
            match it.next() {
                Some(x) => out.push(x.o.id),
                None => break,
            }
        }
        let l1 = it.len() as i64;
        let bad = (it.size_hint() != (l1 as usize, Some(l1 as usize))) as i64;
        let mut r = vec![len0, l1];
        if $stop == 1 {
            r.extend([l1, bad]);
        } else if $stop == 2 {
            while let Some(x) = it.next() {
                out.push(x.o.id);
            }
            r.push(it.len() as i64);
            r.push(bad + it.next().is_some() as i64);
        } else {
            let out = &mut out;
            it.fold((), |_, x| out.push(x.o.id));
            r.extend([0, bad]);
        }
        r.extend(out);
        r
    }};
}

fn step(s: &mut Two, u: &Universe, op: &Op) -> Result<Vec<i64>, i64> {
    let a = &op.1;
    let k = |i: usize| key(u, a[i]);
    let (e, g) = (&mut (), &mut ());
    let t = &mut s.a;
    let n = t.len() as i64;
    let keys = |a: &[i64]| -> Vec<Key> { a.iter().map(|c| key(u, *c)).collect() };
    let opt = |x: Option<i64>| x.map(|v| vec![v]).unwrap_or_default();
    Ok(match op.0 {
        "insert" => vec![t.insert(k(0), e, g)? as i64],
        "insert_unique" => vec![unsafe { t.insert_unique_unchecked(k(0)) }.o.id],
        "contains" => vec![t.contains(&k(0), e, g)? as i64],
        "get" => opt(t.get(&k(0), e, g)?.map(|x| x.o.id)),
        "get_or_insert" => vec![t.get_or_insert(k(0), e, g)?.o.id],
        "get_or_insert_with" => vec![
            t.get_or_insert_with(
                &k(0),
                |_| {
                    seen(a[1]);
                    key(u, a[1])
                },
                e,
                g,
            )?
            .o
            .id,
        ],
        "replace" => opt(t.replace(k(0), e, g)?.map(|x| x.o.id)),
        "remove" => vec![t.remove(&k(0), e, g)? as i64],
        "take" => opt(t.take(&k(0), e, g)?.map(|x| x.o.id)),
        "e_insert" => vec![t.entry(k(0), e, g)?.insert().get().o.id],
        "e_or_insert" => {
            t.entry(k(0), e, g)?.or_insert();
            vec![]
        }
        "e_get" => vec![t.entry(k(0), e, g)?.get().o.id],
        "e_remove" => match t.entry(k(0), e, g)? {
            Entry::Occupied(o) => {
                let mut r = vec![o.get().o.id];
                r.push(o.remove().o.id);
                r
            }
            Entry::Vacant(_) => vec![],
        },
        "e_into_value" => match t.entry(k(0), e, g)? {
            Entry::Occupied(_) => vec![],
            Entry::Vacant(v) => vec![v.get().o.id, v.into_value().o.id],
        },
        "e_vacant_insert" => match t.entry(k(0), e, g)? {
            Entry::Occupied(_) => vec![],
            Entry::Vacant(v) => vec![v.insert().get().o.id],
        },
        "relations" => vec![
            t.is_subset(&s.b, e, g)? as i64,
            t.is_superset(&s.b, e, g)? as i64,
            t.eql(&s.b, e, g)? as i64,
            s.b.is_subset(t, e, g)? as i64,
            s.b.is_superset(t, e, g)? as i64,
        ],
        "extend" => {
            t.extend(keys(a), e, g)?;
            vec![]
        }
        "from_iter" => {
            s.b = HashSet::from_iter(keys(a), e, g)?;
            vec![]
        }
        "from_ary" => {
            let p: [Key; 4] = keys(a).try_into().unwrap();
            let m: HashSet<Key, (), (), i64> = HashSet::from_ary(p, e, g)?;
            m.iter().map(|x| x.o.id).collect()
        }
        "clear" => {
            t.clear();
            vec![]
        }
        "clone" => {
            s.b = s.a.clone();
            vec![]
        }
        "clone_from" => {
            s.b.clone_from(&s.a);
            vec![]
        }
        "swap" => {
            std::mem::swap(&mut s.a, &mut s.b);
            vec![]
        }
        "renew" => {
            s.a = fresh_set(a[0] as usize);
            vec![s.a.capacity() as i64]
        }
        "reserve" | "shrink_to_fit" | "shrink_to" | "capacity" => {
            let c0 = t.capacity() as i64;
            match op.0 {
                "reserve" => t.reserve(a[0] as usize),
                "shrink_to_fit" => t.shrink_to_fit(),
                "shrink_to" => t.shrink_to(a[0] as usize),
                _ => {}
            }
            vec![c0, t.capacity() as i64]
        }
        "len" => vec![n, t.is_empty() as i64],
        "iter" => match a[2] {
            0 => run_iter!(t.iter(), a[0], a[1]),
            1 => run_iter!((&*t).into_iter(), a[0], a[1]),
            _ => run_iter!(t.iter().clone(), a[0], a[1]),
        },
        "drain" => run_iter!(t.drain(), a[0], a[1]),
        "into_iter" => {
            let m = std::mem::replace(t, fresh_set(0));
            run_iter!(m.into_iter(), a[0], a[1])
        }
        "retain" => {
            t.retain(|x| {
                seen(x.o.id);
                x.o.id % a[0] != a[1]
            });
            take_seen()
        }
        "extract_if" => {
            let mut out = vec![];
            {
                let mut it = t.extract_if(|x| {
                    seen(x.o.id);
                    x.o.id % a[0] == a[1]
                });
                while (out.len() as i64) < a[2] {
                    match it.next() {
                        Some(x) => out.push(x.o.id),
                        None => break,
                    }
                }
            }
            let v = take_seen();
            let mut r = vec![v.len() as i64];
            r.extend(v);
            r.extend(out);
            r
        }
        o => panic!("op {o}"),
    })
}

fn observe(s: &Two, u: &Universe, full: bool) -> String {
    let flat = |m: &S| {
        let mut v: Vec<i64> = m.iter().map(|k| k.o.id).collect();
        v.sort();
        v
    };
    let (fa, fb) = (flat(&s.a), flat(&s.b));
    let ks: Vec<i64> = fa.iter().chain(fb.iter()).copied().collect();
    let x = surplus(1, &ks);
    let z = vec![];
    let l: Vec<i64> = if full {
        (1..=u.n())
            .map(|k| {
                s.a.get(&key(u, k), &mut (), &mut ()).unwrap().map(|x| x.o.id).unwrap_or(0)
            })
            .collect()
    } else {
        vec![]
    };
    format!(
        "{{\"q\":{},\"n\":{},\"m\":{},\"d\":{},\"x\":{},\"a\":{},\"b\":{},\"l\":{}}}",
        full as i64,
        s.a.len(),
        s.b.len(),
        doubles(),
        ints(&x),
        ints(if full { &fa } else { &z }),
        ints(if full { &fb } else { &z }),
        ints(&l)
    )
}

pub const NAMES: &[(&str, u32)] = &[
    ("insert", 12), ("insert_unique", 2), ("contains", 3), ("get", 3), ("get_or_insert", 4),
    ("get_or_insert_with", 5), ("replace", 5), ("remove", 5), ("take", 4), ("e_insert", 3),
    ("e_or_insert", 3), ("e_get", 2), ("e_remove", 3), ("e_into_value", 2),
    ("e_vacant_insert", 2), ("relations", 7), ("extend", 6), ("from_iter", 6), ("from_ary", 1),
    ("clear", 1), ("clone", 2), ("clone_from", 2), ("swap", 4), ("renew", 1), ("reserve", 1),
    ("shrink_to_fit", 1), ("shrink_to", 1), ("capacity", 1), ("len", 1), ("iter", 2), ("drain", 1),
    ("into_iter", 1), ("retain", 2), ("extract_if", 2),
];

fn fault(r: &mut Rng, op: &Op, n: i64, m: i64) -> (Kind, i64) {
    let kinds: &[Kind] = match op.0 {
        "insert" | "extend" | "get_or_insert" | "replace" | "e_insert" | "e_or_insert"
        | "e_vacant_insert" => &[Kind::Eq, Kind::EqP, Kind::Hash, Kind::Hash],
        "get_or_insert_with" => &[Kind::Eq, Kind::Eq, Kind::Pred],
        "insert_unique" | "reserve" | "shrink_to_fit" | "shrink_to" => &[Kind::Hash],
        "contains" | "get" | "remove" | "take" | "e_get" | "e_remove" | "e_into_value"
        | "relations" | "from_iter" => &[Kind::Eq, Kind::EqP, Kind::Hash],
        "retain" | "extract_if" => &[Kind::Pred, Kind::Drop],
        "clone" | "clone_from" => &[Kind::Clone, Kind::Clone, Kind::Drop],
        "clear" | "drain" | "into_iter" | "renew" => &[Kind::Drop],
        _ => return (Kind::None, 0),
    };
    let k = *r.pick(kinds);
    let hi = match k {
        Kind::Eq | Kind::EqP => 3,
        Kind::Drop if op.0.starts_with("clone") => m.max(1),
        _ => n.max(1),
    };
    (k, if k == Kind::Pred && op.0.starts_with("get") { 1 } else { r.range(1, hi) })
}

pub fn gen(profile: &str, seed: u64, n: u64, len: usize, out: &mut dyn Write) {
    for h in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003) + h);
        let nk = *r.pick(&[3usize, 6, 6, 12, 12, 24, 24, 60]);
        let u = Universe::random(&mut r, nk, true);
        forget_all();
        let mut s = Two { a: fresh_set(0), b: fresh_set(0) };
        let every = if nk <= 12 { 1 } else if nk <= 24 { 3 } else { 6 };
        write!(out, "{{\"u\":{},\"ev\":[", u.json()).unwrap();
        let w: Vec<u32> = NAMES.iter().map(|x| x.1).collect();
        for i in 0..len + 3 {
            let cnt = s.a.len() as i64;
            let name = NAMES[r.weighted(&w)].0;
            let k = r.range(1, nk as i64);
            let (steps, stop, mode) = (r.range(0, cnt + 1), r.range(0, 2), r.range(0, 2));
            let m = r.range(2, 4);
            let mut op: Op = match name {
                "insert_unique" => {
                    if s.a.contains(&key(&u, k), &mut (), &mut ()).unwrap() {
                        ("insert", vec![k])
                    } else {
                        (name, vec![k])
                    }
                }
                "get_or_insert_with" => {
                    // usually an equal object, now and then not
                    let same: Vec<i64> = (1..=nk as i64)
                        .filter(|j| u.c[*j as usize - 1] == u.c[k as usize - 1])
                        .collect();
                    let j = if r.chance(1, 8) { r.range(1, nk as i64) } else { *r.pick(&same) };
                    (name, vec![k, j])
                }
                "extend" => {
                    let c = r.range(0, (nk as i64).min(30));
                    (name, (0..c).map(|_| r.range(1, nk as i64)).collect())
                }
                "from_iter" => {
                    // near copies make the interesting comparands
                    let mut p: Vec<i64> = s.a.iter().map(|k| k.o.id).collect();
                    for _ in 0..r.below(3) {
                        let j = r.below(p.len() as u64 + 1) as usize;
                        if j < p.len() && r.chance(1, 2) {
                            p.swap_remove(j);
                        } else {
                            p.push(r.range(1, nk as i64));
                        }
                    }
                    (name, p)
                }
                "from_ary" => (name, (0..4).map(|_| r.range(1, nk as i64)).collect()),
                "renew" | "reserve" => (name, vec![r.range(0, 2 * nk as i64)]),
                "shrink_to" => (name, vec![r.range(0, 2 * cnt + 4)]),
                "iter" => (name, vec![steps, stop, mode]),
                "drain" | "into_iter" => (name, vec![steps, stop]),
                "retain" => (name, vec![m, r.range(0, m - 1)]),
                "extract_if" => (name, vec![m, r.range(0, m - 1), steps]),
                "relations" | "clear" | "clone" | "clone_from" | "swap" | "shrink_to_fit"
                | "capacity" | "len" => (name, vec![]),
                _ => (name, vec![k]),
            };
            if i >= len {
                op = if i == len + 1 { ("swap", vec![]) } else { ("renew", vec![0]) };
            }
            let f = match profile {
                "H06" if r.chance(1, 2) => fault(&mut r, &op, s.a.len() as i64, s.b.len() as i64),
                "H04" if r.chance(1, 6) => {
                    let f = fault(&mut r, &op, s.a.len() as i64, s.b.len() as i64);
                    if f.0 == Kind::Eq { f } else { (Kind::None, 0) }
                }
                _ => (Kind::None, 0),
            };
            about_to(|| format!("set history seed={seed} h={h} event {i} {}", op_json(&op)));
            plan(f.0, f.1);
            let res = catch_unwind(AssertUnwindSafe(|| step(&mut s, &u, &op)));
            let fired = unplan();
            let res: Res = match res {
                Ok(Ok(v)) => ("ok", v),
                Ok(Err(c)) => ("err", vec![c]),
                Err(_) => ("panic", take_seen()),
            };
            let full = fired || i % every == 0 || i + 1 >= len;
            write!(
                out,
                "{}{{\"o\":{},\"f\":[\"{}\",[{}]],\"p\":{},\"r\":{},\"s\":{}}}",
                if i > 0 { "," } else { "" },
                op_json(&op),
                f.0.name(),
                f.1,
                fired as i64,
                res_json(&res),
                observe(&s, &u, full)
            )
            .unwrap();
        }
        writeln!(out, "]}}").unwrap();
    }
    out.flush().unwrap();
}
