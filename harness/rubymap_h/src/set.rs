//! Executes and records histories of `RubySet`.
use crate::keys::*;
use crate::map::script;
use common::{about_to, ints, op_json, res_json, Op, Res, Rng};
use rubymap::{RubyEql, RubySet};
use std::cmp::Ordering;
use std::collections::hash_map::RandomState;
use std::hash::BuildHasher;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type S<B> = RubySet<Key, Ctx, (), i64, B>;

/// The parts of the API that exist for the default hasher only.
pub trait Build: BuildHasher + Default + Clone + 'static {
    fn dup(a: &S<Self>) -> S<Self>;
    fn dup_into(a: &S<Self>, b: &mut S<Self>);
    fn ary(x: [Key; 4], e: &mut Ctx) -> Result<S<Self>, i64>;
    const FULL: bool;
}
impl Build for RandomState {
    fn dup(a: &S<Self>) -> S<Self> {
        a.clone()
    }
    fn dup_into(a: &S<Self>, b: &mut S<Self>) {
        b.clone_from(a)
    }
    fn ary(x: [Key; 4], e: &mut Ctx) -> Result<S<Self>, i64> {
        RubySet::from_ary(x, e, &mut ())
    }
    const FULL: bool = true;
}
impl Build for IdBuild {
    fn dup(a: &S<Self>) -> S<Self> {
        S::<Self>::from_iter(a.iter().cloned(), &mut Ctx::default(), &mut ()).unwrap()
    }
    fn dup_into(_: &S<Self>, _: &mut S<Self>) {
        unreachable!()
    }
    fn ary(_: [Key; 4], _: &mut Ctx) -> Result<S<Self>, i64> {
        unreachable!()
    }
    const FULL: bool = false;
}

pub struct St<B> {
    pub a: S<B>,
    pub b: S<B>,
}

fn k0(x: Option<&Key>) -> Vec<i64> {
    x.map(|k| k.id()).into_iter().collect()
}
fn k1(x: Option<Key>) -> Vec<i64> {
    x.map(|k| k.id()).into_iter().collect()
}
fn ik(x: Option<(usize, Key)>) -> Vec<i64> {
    x.map(|(i, k)| vec![i as i64, k.id()]).unwrap_or_default()
}
fn by(m: i64) -> impl Fn(&Key, &Key) -> Ordering {
    move |x, y| (x.0.cls % m).cmp(&(y.0.cls % m))
}
fn by_then(m: i64) -> impl Fn(&Key, &Key) -> Ordering {
    move |x, y| (x.0.cls % m, x.0.cls).cmp(&(y.0.cls % m, y.0.cls))
}
fn search(r: Result<usize, usize>) -> Vec<i64> {
    match r {
        Ok(i) => vec![1, i as i64],
        Err(i) => vec![0, i as i64],
    }
}

fn exec<B: Build>(st: &mut St<B>, op: &Op, u: &Universe, e: &mut Ctx) -> Result<Vec<i64>, i64> {
    let (n, x) = (op.0, &op.1);
    let us = |i: usize| x[i] as usize;
    let key = |i: usize| u.key(x[i]);
    let g = &mut ();
    let cap0 = st.a.capacity() as i64;
    let s = &mut st.a;
    Ok(match n {
        "contains" => vec![s.contains(&key(0), e, g)? as i64],
        "get" => k0(s.get(&key(0), e, g)?),
        "get_full" => s
            .get_full(&key(0), e, g)?
            .map(|(i, k)| vec![i as i64, k.id()])
            .unwrap_or_default(),
        "get_index_of" => s.get_index_of(&key(0), e, g)?.map(|i| i as i64).into_iter().collect(),
        "get_index" => k0(s.get_index(us(0))),
        "index" => vec![s[us(0)..][0].id()],
        "first" => k0(s.first()),
        "last" => k0(s.last()),
        "len" => vec![s.len() as i64, s.is_empty() as i64],
        "get_range" => match s.get_range(us(0)..us(1)) {
            None => vec![0],
            Some(w) => std::iter::once(1).chain(w.iter().map(|k| k.id())).collect(),
        },
        "insert" => vec![s.insert(key(0), e, g)? as i64],
        "insert_full" => {
            let (i, f) = s.insert_full(key(0), e, g)?;
            vec![i as i64, f as i64]
        }
        "insert_sorted" => {
            let (i, f) = s.insert_sorted(key(0), e, g)?;
            vec![i as i64, f as i64]
        }
        "insert_before" => {
            let (i, f) = s.insert_before(us(0), key(1), e, g)?;
            vec![i as i64, f as i64]
        }
        "shift_insert" => vec![s.shift_insert(us(0), key(1), e, g)? as i64],
        "replace" => k1(s.replace(key(0), e, g)?),
        "replace_full" => {
            let (i, o) = s.replace_full(key(0), e, g)?;
            let mut v = vec![i as i64];
            v.extend(k1(o));
            v
        }
        "swap_remove" => vec![s.swap_remove(&key(0), e, g)? as i64],
        "shift_remove" => vec![s.shift_remove(&key(0), e, g)? as i64],
        "swap_take" => k1(s.swap_take(&key(0), e, g)?),
        "shift_take" => k1(s.shift_take(&key(0), e, g)?),
        "swap_remove_full" => ik(s.swap_remove_full(&key(0), e, g)?),
        "shift_remove_full" => ik(s.shift_remove_full(&key(0), e, g)?),
        "swap_remove_index" => k1(s.swap_remove_index(us(0), e, g)?),
        "shift_remove_index" => k1(s.shift_remove_index(us(0), e, g)?),
        "pop" => k1(s.pop(e, g)?),
        "clear" => {
            s.clear();
            vec![]
        }
        "truncate" => {
            s.truncate(us(0), e, g)?;
            vec![]
        }
        "split_off" => {
            st.b = s.split_off(us(0), e, g)?;
            vec![]
        }
        "append" => {
            st.a.append(&mut st.b, e, g)?;
            vec![]
        }
        "reverse" => {
            s.reverse();
            vec![]
        }
        "swap" => {
            std::mem::swap(&mut st.a, &mut st.b);
            vec![]
        }
        "clone" => {
            st.b = B::dup(s);
            vec![]
        }
        "clone_from" => {
            B::dup_into(&st.a, &mut st.b);
            vec![]
        }
        "move_index" => {
            s.move_index(us(0), us(1), e, g)?;
            vec![]
        }
        "sort" => {
            s.sort();
            vec![]
        }
        "sort_unstable" => {
            s.sort_unstable();
            vec![]
        }
        "sort_by" => {
            s.sort_by(by(x[0]));
            vec![]
        }
        "sort_by_cached_key" => {
            s.sort_by_cached_key(|k| k.0.cls % x[0]);
            vec![]
        }
        "sort_unstable_by" => {
            s.sort_unstable_by(by_then(x[0]));
            vec![]
        }
        "sorted_by" => B::dup(s).sorted_by(by(x[0])).map(|k| k.id()).collect(),
        "sorted_unstable_by" => {
            B::dup(s).sorted_unstable_by(by_then(x[0])).map(|k| k.id()).collect()
        }
        "retain" => {
            let mut seen = vec![];
            s.retain(|k| {
                seen.push(k.id());
                k.0.cls % x[0] != x[1]
            });
            seen
        }
        "drain" => {
            let mut d = s.drain(us(0)..us(1), e, g)?;
            let mut v = vec![d.len() as i64];
            for _ in 0..x[2] {
                v.extend(d.next().map(|k| k.id()));
            }
            for _ in 0..x[3] {
                v.extend(d.next_back().map(|k| k.id()));
            }
            v.push(d.as_slice().len() as i64);
            v
        }
        "extend" => {
            s.extend(x.iter().map(|k| u.key(*k)), e, g)?;
            vec![]
        }
        "from_iter" => {
            *s = S::<B>::from_iter(x.iter().map(|k| u.key(*k)), e, g)?;
            vec![]
        }
        "from_ary" => {
            *s = B::ary([key(0), key(1), key(2), key(3)], e)?;
            vec![]
        }
        "binary_search" => search(s.binary_search(&key(0))),
        "binary_search_by" => {
            let c = key(0).0.cls;
            search(s.binary_search_by(|k| k.0.cls.cmp(&c)))
        }
        "binary_search_by_key" => search(s.binary_search_by_key(&key(0).0.cls, |k| k.0.cls)),
        "partition_point" => {
            let c = key(0).0.cls;
            vec![s.partition_point(|k| k.0.cls < c) as i64]
        }
        "eql" => vec![st.a.eql(&st.b, e, g)? as i64, st.b.eql(&st.a, e, g)? as i64],
        "eql1" => vec![st.a.eql(&st.b, e, g)? as i64],
        "subset" => vec![st.a.is_subset(&st.b, e, g)? as i64],
        "disjoint" => vec![st.a.is_disjoint(&st.b, e, g)? as i64],
        "relations" => {
            let mut v = vec![];
            for (p, q) in [(&st.a, &st.b), (&st.b, &st.a)] {
                v.push(p.is_subset(q, e, g)? as i64);
                v.push(p.is_superset(q, e, g)? as i64);
                v.push(p.is_disjoint(q, e, g)? as i64);
            }
            v
        }
        "iter" => {
            let sc = &x[1..];
            match x[0] {
                0 => script!(s.iter(), sc, y => [y.id()], yes),
                1 => script!(B::dup(s).into_iter(), sc, y => [y.id()], no),
                2 => script!(s.as_slice().iter(), sc, y => [y.id()], yes),
                3 => script!(B::dup(s).into_boxed_slice().into_iter(), sc, y => [y.id()], no),
                4 => {
                    let mut c = B::dup(s);
                    let r = script!(c.drain(.., e, g)?, sc, y => [y.id()], no);
                    assert!(c.is_empty());
                    r
                }
                _ => unreachable!(),
            }
        }
        "slice" => match s.get_range(us(0)..us(1)) {
            None => vec![0],
            Some(w) => {
                let mut o = vec![1, w.len() as i64, w.is_empty() as i64];
                o.extend(k0(w.first()));
                o.extend(k0(w.last()));
                o.extend(k0(w.get_index(us(2))));
                let (l, r) = w.split_at(us(2).min(w.len()));
                o.extend(l.iter().map(|k| k.id()));
                o.push(-2);
                o.extend(r.iter().map(|k| k.id()));
                o.push(-2);
                if let Some((k, rest)) = w.split_first() {
                    o.push(k.id());
                    o.extend(rest.iter().map(|k| k.id()));
                }
                o.push(-2);
                if let Some((k, rest)) = w.split_last() {
                    o.push(k.id());
                    o.extend(rest.iter().map(|k| k.id()));
                }
                o
            }
        },
        "reserve" => {
            s.reserve(us(0));
            vec![cap0, s.capacity() as i64]
        }
        "reserve_exact" => {
            s.reserve_exact(us(0));
            vec![cap0, s.capacity() as i64]
        }
        "shrink_to_fit" => {
            s.shrink_to_fit();
            vec![cap0, s.capacity() as i64]
        }
        "shrink_to" => {
            s.shrink_to(us(0));
            vec![cap0, s.capacity() as i64]
        }
        "with_capacity" => {
            *s = S::<B>::with_capacity_and_hasher(us(0), B::default());
            vec![cap0, s.capacity() as i64]
        }
        _ => panic!("no such op {n}"),
    })
}

#[derive(Clone, Copy)]
enum A {
    No,
    K,
    I,
    II,
    IK,
    Cap,
    Mod,
    Retain,
    Drain,
    List,
    List4,
    Range,
    Range3,
    Script,
}
// operation, arguments, weight
const OPS: &[(&str, A, u32)] = &[
    ("contains", A::K, 2), ("get", A::K, 2), ("get_full", A::K, 2), ("get_index_of", A::K, 2),
    ("get_index", A::I, 1), ("index", A::I, 1), ("first", A::No, 1), ("last", A::No, 1),
    ("len", A::No, 1), ("get_range", A::Range, 1), ("insert", A::K, 14), ("insert_full", A::K, 6),
    ("insert_sorted", A::K, 4), ("insert_before", A::IK, 3), ("shift_insert", A::IK, 3),
    ("replace", A::K, 6), ("replace_full", A::K, 4), ("swap_remove", A::K, 2),
    ("shift_remove", A::K, 2), ("swap_take", A::K, 2), ("shift_take", A::K, 2),
    ("swap_remove_full", A::K, 2), ("shift_remove_full", A::K, 2), ("swap_remove_index", A::I, 1),
    ("shift_remove_index", A::I, 1), ("pop", A::No, 1), ("clear", A::No, 1), ("truncate", A::I, 1),
    ("split_off", A::I, 1), ("append", A::No, 2), ("reverse", A::No, 2), ("swap", A::No, 3),
    ("clone", A::No, 3), ("clone_from", A::No, 2), ("move_index", A::II, 2), ("sort", A::No, 2),
    ("sort_unstable", A::No, 1), ("sort_by", A::Mod, 1), ("sort_by_cached_key", A::Mod, 1),
    ("sort_unstable_by", A::Mod, 1), ("sorted_by", A::Mod, 1), ("sorted_unstable_by", A::Mod, 1),
    ("retain", A::Retain, 1), ("drain", A::Drain, 2), ("extend", A::List, 3),
    ("from_iter", A::List, 1), ("from_ary", A::List4, 1), ("binary_search", A::K, 2),
    ("binary_search_by", A::K, 2), ("binary_search_by_key", A::K, 2), ("partition_point", A::K, 2),
    ("eql", A::No, 4), ("relations", A::No, 6), ("iter", A::Script, 4), ("slice", A::Range3, 2),
    ("reserve", A::Cap, 1), ("reserve_exact", A::Cap, 1), ("shrink_to_fit", A::No, 1),
    ("shrink_to", A::Cap, 1), ("with_capacity", A::Cap, 1), ("eql1", A::No, 0),
    ("subset", A::No, 0), ("disjoint", A::No, 0),
];
const FAILING: &[&str] = &[
    "contains", "get", "get_full", "get_index_of", "insert", "insert_full", "insert_before",
    "shift_insert", "replace", "replace_full", "swap_remove", "shift_remove", "swap_take",
    "shift_take", "swap_remove_full", "shift_remove_full", "append", "extend", "from_iter", "eql1",
    "subset", "disjoint",
];

fn args(r: &mut Rng, a: A, nk: i64, len: usize) -> Vec<i64> {
    use crate::map::{index, range};
    let k = |r: &mut Rng| r.range(1, nk);
    match a {
        A::No => vec![],
        A::K => vec![k(r)],
        A::I => vec![index(r, len)],
        A::II => vec![index(r, len), index(r, len)],
        A::IK => vec![if r.chance(1, 5) { len as i64 } else { index(r, len) }, k(r)],
        A::Cap => vec![*r.pick(&[0, 1, 3, 7, 8, 9, 16, 28, 57, 100])],
        A::Mod => vec![r.range(1, 9)],
        A::Retain => {
            let m = r.range(2, 9);
            vec![m, r.range(0, m - 1)]
        }
        A::Drain => {
            let (x, y) = range(r, len);
            vec![x, y, r.below(4) as i64, r.below(4) as i64]
        }
        A::List => {
            let top = if r.chance(1, 4) { 14 } else { 5 };
            let n = r.below(top);
            (0..n).map(|_| k(r)).collect()
        }
        A::List4 => (0..4).map(|_| k(r)).collect(),
        A::Range => {
            let (x, y) = range(r, len);
            vec![x, y]
        }
        A::Range3 => {
            let (x, y) = range(r, len);
            vec![x, y, r.below(6) as i64]
        }
        A::Script => {
            let kind = r.below(5) as i64;
            let mut v = vec![kind];
            for _ in 0..1 + r.below((len as u64 + 3).min(14)) {
                v.push(match r.below(if kind == 0 || kind == 2 { 10 } else { 8 }) {
                    0 | 1 => 0,
                    2 | 3 => 1,
                    4 => 2,
                    5 => 3,
                    6 | 7 => 4,
                    8 => 5,
                    _ => 6 + r.below(2) as i64,
                });
            }
            match r.below(3) {
                0 => v.push(8),
                1 => v.push(9),
                _ => {}
            }
            v
        }
    }
}

fn observe<B: Build>(st: &St<B>, u: &Universe, lookups: bool) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut e = Ctx::default();
        let mut l = vec![];
        if lookups {
            for k in 1..=u.n() {
                l.push(match st.a.get_index_of(&u.key(k), &mut e, &mut ()) {
                    Ok(Some(i)) => i as i64 + 1,
                    Ok(None) => 0,
                    Err(_) => -1,
                });
            }
        }
        let f = |s: &S<B>| ints(&s.iter().map(|k| k.id()).collect::<Vec<_>>());
        format!("{{\"a\":{},\"b\":{},\"l\":{}}}", f(&st.a), f(&st.b), ints(&l))
    }));
    r.unwrap_or_else(|_| "{\"a\":[-99],\"b\":[],\"l\":[]}".to_string())
}

fn run_op<B: Build>(st: &mut St<B>, op: &Op, u: &Universe, e: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| exec(st, op, u, e))) {
        Ok(Ok(v)) => ("ok", v),
        Ok(Err(CODE)) => ("err", vec![]),
        Ok(Err(c)) => ("err", vec![c]),
        Err(_) => ("panic", vec![]),
    }
}

fn history<B: Build>(r: &mut Rng, len: usize, out: &mut dyn Write) {
    let nk = *r.pick(&[3usize, 6, 10, 14, 14, 24, 40]);
    let failing = !B::FULL && r.chance(1, 3);
    let u = Universe::random(r, nk, failing);
    let mut st: St<B> = St { a: S::<B>::default(), b: S::<B>::default() };
    let mut phase = 1;
    let mut left = 0;
    write!(out, "{{\"u\":{},\"ev\":[", u.json()).unwrap();
    for step in 0..len {
        if left == 0 {
            phase = *r.pick(&[1, 1, 0, -1]);
            left = 4 + r.below(nk as u64 + 4);
        }
        left -= 1;
        let sorted = st.a.iter().map(|k| k.0.cls).collect::<Vec<_>>().is_sorted();
        let fault = failing && r.chance(1, 2);
        let w: Vec<u32> = OPS
            .iter()
            .map(|(n, _, w)| {
                let need = n.starts_with("binary") || *n == "insert_sorted" || *n == "partition_point";
                if need && !sorted
                    || !B::FULL && matches!(*n, "clone_from" | "from_ary")
                    || fault && !FAILING.contains(n)
                {
                    return 0;
                }
                if fault {
                    return w.max(&2).to_owned();
                }
                let eff = if n.contains("insert") || n.contains("replace") || *n == "extend" {
                    1
                } else if n.contains("remove") || n.contains("take") || *n == "pop" {
                    -1
                } else {
                    0
                };
                match eff * phase {
                    1 => w * 3,
                    -1 => w.div_ceil(3),
                    _ => *w,
                }
            })
            .collect();
        let (n, a, _) = OPS[r.weighted(&w)];
        let op: Op = (n, args(r, a, nk as i64, st.a.len()));
        let mut e = Ctx::default();
        let mut f = "[]".to_string();
        if fault {
            e.kind = 1 + r.chance(2, 3) as u8;
            for _ in 0..1 + r.below(3) {
                e.ids.push(match r.below(3) {
                    0 if !st.a.is_empty() => {
                        st.a.get_index(r.below(st.a.len() as u64) as usize).unwrap().id()
                    }
                    1 if !op.1.is_empty() => op.1[op.1.len() - 1].clamp(1, nk as i64),
                    _ => r.range(1, nk as i64),
                });
            }
            f = format!("[\"{}\",{}]", if e.kind == 1 { "hash" } else { "eql" }, ints(&e.ids));
        }
        about_to(|| format!("{} step {} {} faults {}", u.json(), step, op_json(&op), f));
        let res = run_op(&mut st, &op, &u, &mut e);
        if step > 0 {
            out.write_all(b",").unwrap();
        }
        let look = nk <= 24 || step % 4 == 3 || step + 1 == len;
        write!(
            out,
            "{{\"o\":{},\"f\":{},\"r\":{},\"s\":{}}}",
            op_json(&op),
            f,
            res_json(&res),
            observe(&st, &u, look)
        )
        .unwrap();
    }
    out.write_all(b"]}\n").unwrap();
}

pub fn gen(seed: u64, n: u64, len: usize, out: &mut dyn Write) {
    for t in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t));
        if r.chance(1, 4) {
            history::<RandomState>(&mut r, len, out);
        } else {
            history::<IdBuild>(&mut r, len, out);
        }
    }
}

pub fn replay(c: Vec<i64>, h: Vec<i64>, digest: Vec<u64>, input: &str, out: &mut dyn Write) {
    let u = Universe { c, h, digest };
    let names: Vec<&'static str> = OPS.iter().map(|x| x.0).collect();
    for line in input.lines() {
        about_to(|| line.to_string());
        let mut st: St<IdBuild> = St { a: Default::default(), b: Default::default() };
        let mut res: Res = ("ok", vec![]);
        for s in line.split(';') {
            res = run_op(&mut st, &common::parse_op(s, &names), &u, &mut Ctx::default());
        }
        writeln!(out, "{{\"r\":{},\"s\":{}}}", res_json(&res), observe(&st, &u, true)).unwrap();
    }
}
