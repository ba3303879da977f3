//! HashTable under histories of operations.
use crate::el::*;
use common::{about_to, ints, op_json, res_json, Op, Res, Rng};
use hashbrown::hash_table::Entry;
use hashbrown::HashTable;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct El {
    o: Obj<0>,
    k: i64,
    v: i64,
    d: u64,
}
type T = HashTable<El, (), (), i64>;

fn hasher(x: &El) -> u64 {
    tick(Kind::Hash);
    x.d
}
fn is(k: i64) -> impl Fn(&El, &mut (), &mut ()) -> Result<bool, i64> {
    move |x, _, _| {
        eq_tick()?;
        Ok(x.k == k)
    }
}
fn is_sym(k: i64) -> impl Fn(&El) -> bool {
    move |x| {
        tick(Kind::EqP);
        x.k == k
    }
}

pub struct Two {
    pub a: T,
    pub b: T,
}

macro_rules! run_iter {
    ($it:expr, $steps:expr, $stop:expr, $id:expr) => {{
        let mut it = $it;
        let len0 = it.len() as i64;
        let mut ids = vec![];
        for _ in 0..$steps {
            match it.next() {
                Some(x) => ids.push($id(x)),
                None => break,
            }
        }
        let l1 = it.len() as i64;
        let bad = (it.size_hint() != (l1 as usize, Some(l1 as usize))) as i64;
        let mut r = vec![len0, l1];
        if $stop == 1 {
            r.push(l1);
            r.push(bad);
        } else if $stop == 2 {
            // by steps, then past the end
            while let Some(x) = it.next() {
                ids.push($id(x));
            }
            r.push(it.len() as i64);
            r.push(bad + it.next().is_some() as i64);
        } else {
            let ids = &mut ids;
            it.fold((), |_, x| ids.push($id(x)));
            r.push(0);
            r.push(bad);
        }
        r.extend(ids);
        r
    }};
}

fn step(s: &mut Two, u: &Universe, op: &Op) -> Result<Vec<i64>, i64> {
    let a = &op.1;
    let el = |id: i64, k: i64| El { o: Obj::new(id), k, v: 0, d: u.d(k) };
    let t = &mut s.a;
    let n = t.len() as i64;
    let e = &mut ();
    let g = &mut ();
    let d = |k: i64| u.d(k);
    Ok(match op.0 {
        "insert" => vec![t.insert_unique(d(a[1]), el(a[0], a[1]), hasher).get().o.id],
        "find" => match t.find(d(a[0]), is(a[0]), e, g)? {
            Some(x) => vec![x.o.id, x.v],
            None => vec![-1, n],
        },
        "find_mut" => match t.find_mut(d(a[0]), is(a[0]), e, g)? {
            Some(x) => {
                let r = vec![x.o.id, x.v];
                x.v = a[1];
                r
            }
            None => vec![-1, n],
        },
        "fe_get" | "fe_mut" | "fe_into_mut" | "fe_remove" | "fe_swap" | "fe_remove_len" => {
            match t.find_entry(d(a[0]), is(a[0]), e, g)? {
                Err(x) => vec![-1, x.into_table().len() as i64],
                Ok(mut x) => {
                    let mut r = vec![x.get().o.id, x.get().v];
                    match op.0 {
                        "fe_get" => {
                            let tt = x.into_table();
                            debug_assert!(!tt.is_empty());
                        }
                        "fe_mut" => x.get_mut().v = a[1],
                        "fe_into_mut" => x.into_mut().v = a[1],
                        "fe_remove" => {
                            let (y, _) = x.remove();
                            r = vec![y.o.id, y.v];
                        }
                        "fe_swap" => {
                            let (y, vac) = x.remove();
                            r = vec![y.o.id, y.v];
                            vac.insert(el(a[1], a[0]));
                        }
                        _ => {
                            let (y, vac) = x.remove();
                            r = vec![y.o.id, y.v, vac.into_table().len() as i64];
                        }
                    }
                    r
                }
            }
        }
        "entry_or_insert" | "entry_or_insert_with" | "entry_modify" | "entry_insert" => {
            let x = if a[2] == 1 {
                t.entry_sym(d(a[0]), is_sym(a[0]), hasher)
            } else {
                t.entry(d(a[0]), is(a[0]), hasher, e, g)?
            };
            match op.0 {
                "entry_or_insert" => {
                    let o = x.or_insert(el(a[1], a[0]));
                    vec![o.get().o.id, o.get().v]
                }
                "entry_or_insert_with" => {
                    let o = x.or_insert_with(|| {
                        seen(a[1]);
                        el(a[1], a[0])
                    });
                    vec![o.get().o.id, o.get().v]
                }
                "entry_modify" => {
                    let o = x
                        .and_modify(|y| {
                            seen(y.o.id);
                            y.v = a[3]
                        })
                        .or_insert(el(a[1], a[0]));
                    vec![o.get().o.id, o.get().v]
                }
                _ => {
                    let old = match &x {
                        Entry::Occupied(o) => o.get().o.id,
                        Entry::Vacant(_) => 0,
                    };
                    let o = x.insert(el(a[1], a[0]));
                    vec![old, o.get().o.id]
                }
            }
        }
        "entry_remove" => {
            let x = if a[1] == 1 {
                t.entry_sym(d(a[0]), is_sym(a[0]), hasher)
            } else {
                t.entry(d(a[0]), is(a[0]), hasher, e, g)?
            };
            match x {
                Entry::Occupied(o) => {
                    let (y, _) = o.remove();
                    vec![y.o.id, y.v]
                }
                Entry::Vacant(v) => vec![-1, v.into_table().len() as i64],
            }
        }
        "clear" => {
            t.clear();
            vec![]
        }
        "reserve" | "shrink_to_fit" | "shrink_to" | "capacity" => {
            let c0 = t.capacity() as i64;
            match op.0 {
                "reserve" => t.reserve(a[0] as usize, hasher),
                "shrink_to_fit" => t.shrink_to_fit(hasher),
                "shrink_to" => t.shrink_to(a[0] as usize, hasher),
                _ => {}
            }
            vec![c0, t.capacity() as i64]
        }
        "fill_reserved" => {
            t.reserve(a[0] as usize, hasher);
            let mut r = vec![t.capacity() as i64];
            for i in 0..a[0] {
                let k = a[2 + i as usize];
                t.insert_unique(d(k), el(a[1] + i, k), hasher);
                r.push(t.capacity() as i64);
            }
            r
        }
        "len" => vec![n, t.is_empty() as i64],
        "iter" => match a[2] {
            0 => run_iter!(t.iter(), a[0], a[1], |x: &El| x.o.id),
            1 => run_iter!((&*t).into_iter(), a[0], a[1], |x: &El| x.o.id),
            _ => {
                // continue on a copy of the iterator
                let mut i = t.iter();
                let len0 = i.len() as i64;
                let mut ids: Vec<i64> = i.by_ref().take(a[0] as usize).map(|x| x.o.id).collect();
                let j = i.clone();
                let mut r = vec![len0, i.len() as i64];
                let other = i.map(|x| x.o.id).count() as i64;
                let bad = (other != r[1]) as i64;
                r.push(if a[1] == 1 { r[1] } else { 0 });
                r.push(bad);
                if a[1] != 1 {
                    ids.extend(j.map(|x| x.o.id));
                }
                r.extend(ids);
                r
            }
        },
        "iter_mut" => {
            let f = |x: &mut El| {
                x.v += 1;
                x.o.id
            };
            if a[2] == 0 {
                run_iter!(t.iter_mut(), a[0], a[1], f)
            } else {
                run_iter!((&mut *t).into_iter(), a[0], a[1], f)
            }
        }
        "drain" => run_iter!(t.drain(), a[0], a[1], |x: El| x.o.id),
        "into_iter" => {
            run_iter!(std::mem::take(t).into_iter(), a[0], a[1], |x: El| x.o.id)
        }
        "iter_hash" => t.iter_hash(d(a[0])).map(|x| x.o.id).collect(),
        "iter_hash_mut" => {
            let mut r = vec![];
            let mut it = t.iter_hash_mut(d(a[0]));
            while let Some(x) = it.next() {
                if x.k == a[0] {
                    x.v = a[1];
                }
                r.push(x.o.id);
            }
            r
        }
        "retain" => {
            t.retain(|x| {
                seen(x.o.id);
                let keep = x.v % a[0] != a[1];
                x.v += 1;
                keep
            });
            take_seen()
        }
        "extract_if" => {
            let mut out = vec![];
            {
                let mut it = t.extract_if(|x| {
                    seen(x.o.id);
                    let take = x.v % a[0] == a[1];
                    x.v += 1;
                    take
                });
                while (out.len() as i64) < a[2] {
                    match it.next() {
                        Some(x) => out.push(x.o.id),
                        None => break,
                    }
                }
            }
            let v = take_seen();
            let mut r = vec![v.len() as i64];
            r.extend(v);
            r.extend(out);
            r
        }
        "clone" => {
            s.b = s.a.clone();
            vec![]
        }
        "clone_from" => {
            s.b.clone_from(&s.a);
            vec![]
        }
        "swap" => {
            std::mem::swap(&mut s.a, &mut s.b);
            vec![]
        }
        "renew" => {
            s.a = HashTable::with_capacity(a[0] as usize);
            vec![s.a.capacity() as i64]
        }
        "bulk" => {
            let mut r = vec![];
            for c in a.chunks(3) {
                if c[0] == 0 {
                    t.insert_unique(d(c[2]), el(c[1], c[2]), hasher);
                } else {
                    match t.find_entry(d(c[1]), is(c[1]), e, g)? {
                        Ok(x) => r.push(x.remove().0.o.id),
                        Err(_) => r.push(0),
                    }
                }
            }
            r
        }
        o => panic!("op {o}"),
    })
}

fn flat(t: &T) -> (Vec<i64>, Vec<i64>) {
    let mut v: Vec<[i64; 3]> = t.iter().map(|x| [x.o.id, x.k, x.v]).collect();
    v.sort();
    (v.iter().map(|x| x[0]).collect(), v.concat())
}

pub fn observe(s: &Two, u: &Universe, full: bool) -> String {
    let (mut ids, fa) = flat(&s.a);
    let (ib, fb) = flat(&s.b);
    ids.extend(ib);
    let x = surplus(0, &ids);
    let l: Vec<i64> = if full {
        (1..=u.n())
            .map(|k| {
                s.a.find(u.d(k), |x, _, _| Ok(x.k == k), &mut (), &mut ())
                    .unwrap()
                    .map(|x| x.o.id)
                    .unwrap_or(0)
            })
            .collect()
    } else {
        vec![]
    };
    let z = vec![];
    format!(
        "{{\"q\":{},\"n\":{},\"m\":{},\"d\":{},\"x\":{},\"a\":{},\"b\":{},\"l\":{}}}",
        full as i64,
        s.a.len(),
        s.b.len(),
        doubles(),
        ints(&x),
        ints(if full { &fa } else { &z }),
        ints(if full { &fb } else { &z }),
        ints(&l)
    )
}

pub fn exec(s: &mut Two, u: &Universe, op: &Op, f: (Kind, i64)) -> (Res, bool) {
    plan(f.0, f.1);
    let r = catch_unwind(AssertUnwindSafe(|| step(s, u, op)));
    let fired = unplan();
    let r = match r {
        Ok(Ok(v)) => ("ok", v),
        Ok(Err(c)) => ("err", vec![c]),
        Err(_) => ("panic", take_seen()),
    };
    (r, fired)
}

fn fault(r: &mut Rng, op: &Op, n: i64, m: i64) -> (Kind, i64) {
    let kinds: &[Kind] = match op.0 {
        "find" | "find_mut" | "fe_get" | "fe_mut" | "fe_into_mut" | "fe_remove" | "fe_swap"
        | "fe_remove_len" => &[Kind::Eq, Kind::EqP],
        "entry_or_insert" | "entry_insert" => &[Kind::Eq, Kind::EqP, Kind::Hash, Kind::Hash],
        "entry_or_insert_with" | "entry_modify" => {
            &[Kind::Eq, Kind::EqP, Kind::Hash, Kind::Hash, Kind::Pred]
        }
        "entry_remove" => &[Kind::Eq, Kind::EqP, Kind::Hash],
        "insert" | "reserve" | "shrink_to_fit" | "shrink_to" => &[Kind::Hash],
        "retain" | "extract_if" => &[Kind::Pred, Kind::Drop],
        "clone" | "clone_from" => &[Kind::Clone, Kind::Clone, Kind::Drop],
        "clear" | "drain" | "into_iter" | "renew" => &[Kind::Drop],
        _ => return (Kind::None, 0),
    };
    let k = *r.pick(kinds);
    let hi = match k {
        Kind::Eq | Kind::EqP => 3,
        Kind::Drop if op.0.starts_with("clone") => m.max(1),
        _ => n.max(1),
    };
    (k, if k == Kind::Pred && op.0.starts_with("entry") { 1 } else { r.range(1, hi) })
}

pub const NAMES: &[&str] = &[
    "insert", "find", "find_mut", "fe_get", "fe_mut", "fe_into_mut", "fe_remove", "fe_swap",
    "fe_remove_len", "entry_or_insert", "entry_or_insert_with", "entry_modify", "entry_insert",
    "entry_remove", "clear", "reserve", "shrink_to_fit", "shrink_to", "capacity", "fill_reserved",
    "len", "iter", "iter_mut", "drain", "into_iter", "iter_hash", "iter_hash_mut", "retain",
    "extract_if", "clone", "clone_from", "swap", "renew", "bulk",
];

struct Gen<'a> {
    r: &'a mut Rng,
    nk: i64,
    id: i64,
}
impl Gen<'_> {
    fn fresh(&mut self) -> i64 {
        self.id += 1;
        self.id
    }
    fn key(&mut self) -> i64 {
        self.r.range(1, self.nk)
    }
    /// grow to about `hi`, shrink to about `lo`, grow again
    fn churn(&mut self, t: &T, budget: i64) -> Op {
        let mut keys: Vec<i64> = t.iter().map(|x| x.k).collect();
        let mut a = vec![];
        for _ in 0..self.r.range(1, 3) {
            let up = self.r.range(0, budget);
            for _ in 0..up {
                let k = self.key();
                let id = self.fresh();
                a.extend([0, id, k]);
                keys.push(k);
            }
            let down = self.r.range(0, keys.len() as i64);
            let mode = self.r.below(3);
            for _ in 0..down {
                let i = match mode {
                    0 => self.r.below(keys.len() as u64) as usize,
                    1 => 0,
                    _ => keys.len() - 1,
                };
                let k = if mode == 0 { keys.swap_remove(i) } else { keys.remove(i) };
                a.extend([1, k, 0]);
            }
            if keys.len() as i64 > budget {
                break;
            }
        }
        ("bulk", a)
    }
    /// use up the room that is left
    fn fill(&mut self, t: &T, a: &mut Vec<i64>, keys: &mut Vec<i64>) {
        for _ in 0..(t.capacity() - t.len()) {
            let k = self.key();
            let id = self.fresh();
            a.extend([0, id, k]);
            keys.push(k);
        }
    }
    /// Towards a table full of removed slots, so that the next insert cleans
    /// up in place: fill it, take most out again, fill, insert.
    fn saturate(&mut self, t: &T, phase: u64) -> Op {
        let mut a = vec![];
        let mut keys: Vec<i64> = t.iter().map(|x| x.k).collect();
        match phase {
            3 => ("renew", vec![*self.r.pick(&[14, 28, 28, 56])]),
            2 => {
                self.fill(t, &mut a, &mut keys);
                let part = self.r.range(55, 90);
                for _ in 0..(keys.len() as i64 * part / 100) {
                    let i = self.r.below(keys.len() as u64) as usize;
                    a.extend([1, keys.swap_remove(i), 0]);
                }
                ("bulk", a)
            }
            1 => {
                self.fill(t, &mut a, &mut keys);
                ("bulk", a)
            }
            _ => {
                let k = self.key();
                match self.r.below(3) {
                    0 => ("reserve", vec![1]),
                    1 => ("entry_or_insert", vec![k, self.fresh(), 0]),
                    _ => ("insert", vec![self.fresh(), k]),
                }
            }
        }
    }
    fn op(&mut self, profile: &str, t: &T) -> Op {
        let n = t.len() as i64;
        // weights over NAMES
        let mut w: Vec<u32> = vec![
            14, 4, 3, 2, 2, 2, 6, 4, 2, 4, 3, 3, 3, 4, 1, 2, 1, 1, 1, 2, 1, 1, 1, 1, 1, 2, 2, 1, 1,
            1, 1, 1, 1, 5,
        ];
        let boost: &[(&str, u32)] = match profile {
            "H02" => &[("reserve", 8), ("shrink_to_fit", 6), ("shrink_to", 8), ("fill_reserved", 8), ("bulk", 20), ("renew", 3), ("clone", 3)],
            "H05" => &[("iter", 8), ("iter_mut", 8), ("drain", 6), ("into_iter", 6), ("iter_hash", 8), ("iter_hash_mut", 6), ("retain", 8), ("extract_if", 10), ("bulk", 14)],
            "H06" => &[("clone", 6), ("clone_from", 6), ("retain", 6), ("extract_if", 6), ("drain", 5), ("into_iter", 5), ("clear", 4), ("reserve", 6), ("shrink_to", 5), ("bulk", 16), ("renew", 3), ("fe_swap", 6)],
            _ => &[],
        };
        for (b, x) in boost {
            w[NAMES.iter().position(|y| y == b).unwrap()] = *x;
        }
        let name = NAMES[self.r.weighted(&w)];
        let k = self.key();
        let sym = self.r.below(2) as i64;
        let steps = self.r.range(0, n + 1);
        let stop = self.r.range(0, 2);
        let mode = self.r.range(0, 2);
        let m = self.r.range(2, 4);
        let rem = self.r.range(0, m - 1);
        let v = self.r.range(0, 5);
        let budget = (self.nk * 2).min(70);
        match name {
            "insert" => (name, vec![self.fresh(), k]),
            "find" | "fe_get" | "fe_remove" | "fe_remove_len" | "iter_hash" => (name, vec![k]),
            "find_mut" | "fe_mut" | "fe_into_mut" | "iter_hash_mut" => (name, vec![k, v]),
            "fe_swap" => (name, vec![k, self.fresh()]),
            "entry_or_insert" | "entry_or_insert_with" | "entry_insert" => {
                (name, vec![k, self.fresh(), sym])
            }
            "entry_modify" => (name, vec![k, self.fresh(), sym, v]),
            "entry_remove" => (name, vec![k, sym]),
            "reserve" => (name, vec![self.r.range(0, budget)]),
            "shrink_to" => (name, vec![self.r.range(0, 2 * n + 4)]),
            "renew" => (name, vec![self.r.range(0, budget)]),
            "fill_reserved" => {
                let c = self.r.range(1, budget.min(30));
                let id = self.id + 1;
                self.id += c;
                let mut a = vec![c, id];
                for _ in 0..c {
                    a.push(self.key());
                }
                (name, a)
            }
            "iter" | "iter_mut" => (name, vec![steps, stop, mode]),
            "drain" | "into_iter" => (name, vec![steps, stop]),
            "retain" => (name, vec![m, rem]),
            "extract_if" => (name, vec![m, rem, steps]),
            "bulk" => self.churn(t, budget),
            _ => (name, vec![]),
        }
    }
}

pub fn gen(profile: &str, seed: u64, n: u64, len: usize, out: &mut dyn Write) {
    for h in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003) + h);
        let nk = *r.pick(&[2usize, 3, 5, 8, 8, 14, 14, 28, 28, 60]);
        let u = Universe::random(&mut r, nk, false);
        forget_all();
        let mut s = Two { a: HashTable::new(), b: HashTable::new() };
        let every = if nk <= 8 { 1 } else if nk <= 28 { 3 } else { 6 };
        write!(out, "{{\"u\":{},\"ev\":[", u.json()).unwrap();
        let len = if nk > 28 { len / 2 } else { len };
        let mut id = 0;
        let mut sat = 0;
        for i in 0..len + 3 {
            let mut g = Gen { r: &mut r, nk: nk as i64, id };
            let mut op = g.op(profile, &s.a);
            if sat == 0 && nk >= 8 && matches!(profile, "H02" | "H06") && g.r.chance(1, 12) {
                sat = 4;
            }
            let mut rehash = false;
            if sat > 0 {
                sat -= 1;
                op = g.saturate(&s.a, sat);
                rehash = sat == 0;
            }
            // keep tables from growing without bound
            if s.a.len() > 90 && matches!(op.0, "bulk" | "fill_reserved") {
                op = ("retain", vec![2, (i % 2) as i64]);
            }
            id = g.id;
            // the end of a life: everything still held is dropped
            if i >= len {
                op = if i == len + 1 { ("swap", vec![]) } else { ("renew", vec![0]) };
            }
            let faulty = match profile {
                "H06" => r.chance(1, 2),
                "H01" => r.chance(1, 8),
                _ => false,
            };
            let mut f = if faulty {
                fault(&mut r, &op, s.a.len() as i64, s.b.len() as i64)
            } else {
                (Kind::None, 0)
            };
            if profile == "H06" && rehash {
                f = (Kind::Hash, r.range(1, s.a.len().max(1) as i64));
            }
            if profile == "H01" && f.0 != Kind::Eq {
                f = (Kind::None, 0);
            }
            about_to(|| format!("table history seed={seed} h={h} event {i} {}", op_json(&op)));
            let (res, fired) = exec(&mut s, &u, &op, f);
            let full = fired || i % every == 0 || i + 1 >= len;
            write!(
                out,
                "{}{{\"o\":{},\"f\":[\"{}\",[{}]],\"p\":{},\"r\":{},\"s\":{}}}",
                if i > 0 { "," } else { "" },
                op_json(&op),
                f.0.name(),
                f.1,
                fired as i64,
                res_json(&res),
                observe(&s, &u, full)
            )
            .unwrap();
        }
        write!(out, "]}}\n").unwrap();
    }
    out.flush().unwrap();
}

/// Walks of RawTable.tla: "code,a,h1,tag;..." per line. Element `id` is the
/// only one of key `id`; its digest is made of its start position and tag.
/// After each walk: the capacity after every operation, on the line of the
/// history as "c".
pub fn walk(input: &str, out: &mut dyn Write) {
    for (w, line) in input.lines().enumerate() {
        let ops: Vec<Vec<i64>> = line
            .split(';')
            .map(|x| x.split(',').map(|y| y.parse().unwrap()).collect())
            .collect();
        let mut digest: Vec<u64> = vec![];
        for o in ops.iter().filter(|o| o[0] == 0) {
            assert_eq!(o[1], digest.len() as i64 + 1);
            digest.push((o[3] as u64) << 57 | o[2] as u64);
        }
        let mut uniq = digest.clone();
        uniq.sort();
        uniq.dedup();
        let h = digest.iter().map(|d| uniq.binary_search(d).unwrap() as i64 + 1).collect();
        let c = (1..=digest.len() as i64).collect();
        let u = Universe { c, h, digest };
        forget_all();
        let mut s = Two { a: HashTable::new(), b: HashTable::new() };
        let mut caps = vec![];
        write!(out, "{{\"u\":{},\"ev\":[", u.json()).unwrap();
        for (i, o) in ops.iter().enumerate() {
            let op: Op = match o[0] {
                0 => ("insert", vec![o[1], o[1]]),
                1 => ("fe_remove", vec![o[1]]),
                2 => ("reserve", vec![o[1]]),
                3 => ("shrink_to", vec![o[1]]),
                _ => ("clear", vec![]),
            };
            about_to(|| format!("table walk {w} event {i} {}", op_json(&op)));
            let (res, fired) = exec(&mut s, &u, &op, (Kind::None, 0));
            caps.push(s.a.capacity() as i64);
            write!(
                out,
                "{}{{\"o\":{},\"f\":[\"none\",[0]],\"p\":{},\"r\":{},\"s\":{}}}",
                if i > 0 { "," } else { "" },
                op_json(&op),
                fired as i64,
                res_json(&res),
                observe(&s, &u, i % 12 == 11 || i + 1 == ops.len())
            )
            .unwrap();
        }
        write!(out, "],\"c\":{}}}\n", ints(&caps)).unwrap();
    }
    out.flush().unwrap();
}
