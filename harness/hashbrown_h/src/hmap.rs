//! HashMap under histories of operations.
use crate::el::*;
use common::{about_to, ints, op_json, res_json, Op, Res, Rng};
use hashbrown::hash_map::{Entry, EntryRef};
use hashbrown::{HashMap, RubyEql};
use std::hash::{BuildHasher, Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Key {
    pub o: Obj<1>,
    pub cls: i64,
    pub d: u64,
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick(Kind::Hash);
        h.write_u64(self.d);
    }
}
impl RubyEql<(), (), i64> for Key {
    fn eql(&self, o: &Key, _: &mut (), _: &mut ()) -> Result<bool, i64> {
        eq_tick()?;
        Ok(self.cls == o.cls)
    }
}
impl From<&Key> for Key {
    fn from(k: &Key) -> Key {
        Key { o: Obj::new(k.o.id), cls: k.cls, d: k.d }
    }
}
#[derive(Clone, Debug)]
pub struct Val {
    o: Obj<2>,
    v: i64,
}
impl Val {
    fn new(v: i64) -> Val {
        Val { o: Obj::new(v), v }
    }
    fn set(&mut self, v: i64) -> i64 {
        let old = self.v;
        *self = Val::new(v);
        old
    }
}
impl Default for Val {
    fn default() -> Val {
        Val::new(0)
    }
}
impl RubyEql<(), (), i64> for Val {
    fn eql(&self, o: &Val, _: &mut (), _: &mut ()) -> Result<bool, i64> {
        Ok(self.v == o.v)
    }
}
#[derive(Clone, Default)]
pub struct IdBuild;
pub struct IdHasher(u64);
impl BuildHasher for IdBuild {
    type Hasher = IdHasher;
    fn build_hasher(&self) -> IdHasher {
        IdHasher(0)
    }
}
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
pub fn key(u: &Universe, id: i64) -> Key {
    let i = id as usize - 1;
    Key { o: Obj::new(id), cls: u.c[i], d: u.digest[i] }
}
type M = HashMap<Key, Val, (), (), i64, IdBuild>;
pub struct Two {
    a: M,
    b: M,
}
fn fresh_map(c: usize) -> M {
    HashMap::with_capacity_and_hasher(c, IdBuild)
}

macro_rules! run_iter {
    ($it:expr, $steps:expr, $stop:expr, $id:expr) => {{
        let mut it = $it;
        let len0 = it.len() as i64;
        let mut out: Vec<i64> = vec![];
        for _ in 0..$steps {
            match it.next() {
                Some(x) => $id(x, &mut out),
                None => break,
            }
        }
        let l1 = it.len() as i64;
        let bad = (it.size_hint() != (l1 as usize, Some(l1 as usize))) as i64;
        let mut r = vec![len0, l1];
        if $stop == 1 {
            r.extend([l1, bad]);
        } else if $stop == 2 {
            while let Some(x) = it.next() {
                $id(x, &mut out);
            }
            r.push(it.len() as i64);
            r.push(bad + it.next().is_some() as i64);
        } else {
            let out = &mut out;
            it.fold((), |_, x| $id(x, out));
            r.extend([0, bad]);
        }
        r.extend(out);
        r
    }};
}

fn step(s: &mut Two, u: &Universe, op: &Op) -> Result<Vec<i64>, i64> {
    let a = &op.1;
    let k = |i: usize| key(u, a[i]);
    let (e, g) = (&mut (), &mut ());
    let t = &mut s.a;
    let n = t.len() as i64;
    let opt = |x: Option<i64>| x.map(|v| vec![v]).unwrap_or_default();
    let pairs = |a: &[i64]| -> Vec<(Key, Val)> {
        a.chunks(2).map(|c| (key(u, c[0]), Val::new(c[1]))).collect()
    };
    Ok(match op.0 {
        "insert" => opt(t.insert(k(0), Val::new(a[1]), e, g)?.map(|v| v.v)),
        "insert_unique" => {
            let (kk, vv) = unsafe { t.insert_unique_unchecked(k(0), Val::new(a[1])) };
            vec![kk.o.id, vv.v]
        }
        "try_insert" => match t.try_insert(k(0), Val::new(a[1]), e, g)? {
            Ok(v) => vec![0, v.v],
            Err(x) => vec![1, x.entry.key().o.id, x.entry.get().v, x.value.v],
        },
        "get" => opt(t.get(&k(0), e, g)?.map(|v| v.v)),
        "contains_key" => vec![t.contains_key(&k(0), e, g)? as i64],
        "get_key_value" => match t.get_key_value(&k(0), e, g)? {
            Some((x, v)) => vec![x.o.id, v.v],
            None => vec![],
        },
        "get_key_value_mut" => match t.get_key_value_mut(&k(0), e, g)? {
            Some((x, v)) => vec![x.o.id, v.set(a[1])],
            None => vec![],
        },
        "get_mut" => opt(t.get_mut(&k(0), e, g)?.map(|v| v.set(a[1]))),
        "remove" => opt(t.remove(&k(0), e, g)?.map(|v| v.v)),
        "remove_entry" => match t.remove_entry(&k(0), e, g)? {
            Some((x, v)) => vec![x.o.id, v.v],
            None => vec![],
        },
        "e_insert" => {
            let kk = k(0);
            let o = if a[2] == 1 {
                t.entry_ref(&kk, e, g)?.insert(Val::new(a[1]))
            } else {
                t.entry(kk, e, g)?.insert(Val::new(a[1]))
            };
            vec![o.key().o.id, o.get().v]
        }
        "e_or_insert" => {
            let kk = k(0);
            vec![if a[2] == 1 {
                t.entry_ref(&kk, e, g)?.or_insert(Val::new(a[1])).v
            } else {
                t.entry(kk, e, g)?.or_insert(Val::new(a[1])).v
            }]
        }
        "e_or_insert_with" => {
            let kk = k(0);
            let f = || {
                seen(a[0]);
                Val::new(a[1])
            };
            vec![if a[2] == 1 {
                t.entry_ref(&kk, e, g)?.or_insert_with(f).v
            } else {
                t.entry(kk, e, g)?.or_insert_with(f).v
            }]
        }
        "e_or_insert_with_key" => {
            let kk = k(0);
            let mut got = 0;
            let f = |x: &Key| {
                seen(a[0]);
                got = x.o.id;
                Val::new(a[1])
            };
            let v = if a[2] == 1 {
                t.entry_ref(&kk, e, g)?.or_insert_with_key(f).v
            } else {
                t.entry(kk, e, g)?.or_insert_with_key(f).v
            };
            vec![v, got]
        }
        "e_or_default" => {
            let kk = k(0);
            vec![if a[1] == 1 {
                t.entry_ref(&kk, e, g)?.or_default().v
            } else {
                t.entry(kk, e, g)?.or_default().v
            }]
        }
        // argument 1: the key as named by a vacant-or-occupied reference handle
        "e_key" => {
            let kk = k(0);
            vec![if a[1] == 1 {
                match t.entry_ref(&kk, e, g)? {
                    EntryRef::Vacant(v) => v.key().o.id,
                    EntryRef::Occupied(_) => a[0],
                }
            } else {
                t.entry(kk, e, g)?.key().o.id
            }]
        }
        "e_and_modify" => {
            let kk = k(0);
            let f = |x: &mut Val| {
                seen(a[0]);
                x.set(a[2]);
            };
            vec![if a[3] == 1 {
                t.entry_ref(&kk, e, g)?.and_modify(f).or_insert(Val::new(a[1])).v
            } else {
                t.entry(kk, e, g)?.and_modify(f).or_insert(Val::new(a[1])).v
            }]
        }
        "e_replace_some" | "e_replace_none" | "e_replace_refill" => {
            let mut got = [0, 0];
            let x = t.entry(k(0), e, g)?;
            let f = |kk: &Key, v: Val| {
                seen(a[0]);
                got = [kk.o.id, v.v];
                if op.0 == "e_replace_some" {
                    Some(Val::new(a[1]))
                } else {
                    None
                }
            };
            let x = if a[2] == 1 {
                match x {
                    Entry::Occupied(o) => o.replace_entry_with(f),
                    v => v,
                }
            } else {
                x.and_replace_entry_with(f)
            };
            match x {
                Entry::Occupied(o) => vec![got[0], got[1], 1, o.key().o.id],
                Entry::Vacant(v) => {
                    let id = v.key().o.id;
                    if op.0 == "e_replace_refill" {
                        v.insert(Val::new(a[1]));
                    }
                    vec![got[0], got[1], 0, id]
                }
            }
        }
        "e_remove" | "e_remove_entry" | "e_set" | "e_get_mut" | "e_into_mut" => {
            match t.entry(k(0), e, g)? {
                Entry::Vacant(_) => vec![],
                Entry::Occupied(mut o) => match op.0 {
                    "e_remove" => vec![o.remove().v],
                    "e_remove_entry" => {
                        let (x, v) = o.remove_entry();
                        vec![x.o.id, v.v]
                    }
                    "e_set" => vec![o.insert(Val::new(a[1])).v],
                    "e_get_mut" => vec![o.get_mut().set(a[1])],
                    _ => vec![o.into_mut().set(a[1])],
                },
            }
        }
        "e_into_key" => match t.entry(k(0), e, g)? {
            Entry::Vacant(v) => vec![v.into_key().o.id],
            Entry::Occupied(_) => vec![],
        },
        "e_insert_entry" => {
            let kk = k(0);
            if a[2] == 1 {
                match t.entry_ref(&kk, e, g)? {
                    EntryRef::Vacant(v) => {
                        let o = v.insert_entry(Val::new(a[1]));
                        vec![o.key().o.id, o.get().v]
                    }
                    EntryRef::Occupied(_) => vec![],
                }
            } else {
                match t.entry(kk, e, g)? {
                    Entry::Vacant(v) => {
                        let o = v.insert_entry(Val::new(a[1]));
                        vec![o.key().o.id, o.get().v]
                    }
                    Entry::Occupied(_) => vec![],
                }
            }
        }
        "extend" => {
            t.extend(pairs(a), e, g)?;
            vec![]
        }
        "from_iter" => {
            s.b = HashMap::from_iter(pairs(a), e, g)?;
            vec![]
        }
        "from_ary" => {
            let p: [(Key, Val); 4] = pairs(a).try_into().unwrap();
            let m: HashMap<Key, Val, (), (), i64> = HashMap::from_ary(p, e, g)?;
            m.iter().flat_map(|(x, v)| [x.o.id, v.v]).collect()
        }
        "clear" => {
            t.clear();
            vec![]
        }
        "clone" => {
            s.b = s.a.clone();
            vec![]
        }
        "clone_from" => {
            s.b.clone_from(&s.a);
            vec![]
        }
        "swap" => {
            std::mem::swap(&mut s.a, &mut s.b);
            vec![]
        }
        "renew" => {
            s.a = fresh_map(a[0] as usize);
            vec![s.a.capacity() as i64]
        }
        "eql" => vec![t.eql(&s.b, e, g)? as i64],
        "reserve" | "shrink_to_fit" | "shrink_to" | "capacity" => {
            let c0 = t.capacity() as i64;
            match op.0 {
                "reserve" => t.reserve(a[0] as usize),
                "shrink_to_fit" => t.shrink_to_fit(),
                "shrink_to" => t.shrink_to(a[0] as usize),
                _ => {}
            }
            vec![c0, t.capacity() as i64]
        }
        "len" => vec![n, t.is_empty() as i64],
        "iter" => {
            let f = |x: (&Key, &Val), out: &mut Vec<i64>| out.extend([x.0.o.id, x.1.v]);
            match a[2] {
                0 => run_iter!(t.iter(), a[0], a[1], f),
                1 => run_iter!((&*t).into_iter(), a[0], a[1], f),
                _ => run_iter!(t.iter().clone(), a[0], a[1], f),
            }
        }
        "keys" => {
            run_iter!(t.keys(), a[0], a[1], |x: &Key, out: &mut Vec<i64>| out.push(x.o.id))
        }
        "values" => {
            run_iter!(t.values(), a[0], a[1], |x: &Val, out: &mut Vec<i64>| out.push(x.v))
        }
        "values_mut" => {
            run_iter!(t.values_mut(), a[0], a[1], |x: &mut Val, out: &mut Vec<i64>| {
                out.push(x.v);
                x.v += 1
            })
        }
        "iter_mut" => {
            let f = |x: (&Key, &mut Val), out: &mut Vec<i64>| {
                out.extend([x.0.o.id, x.1.v]);
                x.1.v += 1
            };
            if a[2] == 0 {
                run_iter!(t.iter_mut(), a[0], a[1], f)
            } else {
                run_iter!((&mut *t).into_iter(), a[0], a[1], f)
            }
        }
        "drain" => run_iter!(t.drain(), a[0], a[1], |x: (Key, Val), out: &mut Vec<i64>| out
            .extend([x.0.o.id, x.1.v])),
        "into_iter" => {
            let m = std::mem::replace(t, fresh_map(0));
            run_iter!(m.into_iter(), a[0], a[1], |x: (Key, Val), out: &mut Vec<i64>| out
                .extend([x.0.o.id, x.1.v]))
        }
        "into_keys" => {
            let m = std::mem::replace(t, fresh_map(0));
            run_iter!(m.into_keys(), a[0], a[1], |x: Key, out: &mut Vec<i64>| out.push(x.o.id))
        }
        "into_values" => {
            let m = std::mem::replace(t, fresh_map(0));
            run_iter!(m.into_values(), a[0], a[1], |x: Val, out: &mut Vec<i64>| out.push(x.v))
        }
        "retain" => {
            t.retain(|x, v| {
                seen(x.o.id);
                let keep = v.v % a[0] != a[1];
                v.v += 1;
                keep
            });
            take_seen()
        }
        "extract_if" => {
            let mut out = vec![];
            {
                let mut it = t.extract_if(|x, v| {
                    seen(x.o.id);
                    let take = v.v % a[0] == a[1];
                    v.v += 1;
                    take
                });
                while (out.len() as i64) < 2 * a[2] {
                    match it.next() {
                        Some((x, v)) => out.extend([x.o.id, v.v]),
                        None => break,
                    }
                }
            }
            let v = take_seen();
            let mut r = vec![v.len() as i64];
            r.extend(v);
            r.extend(out);
            r
        }
        o => panic!("op {o}"),
    })
}

fn observe(s: &Two, u: &Universe, full: bool) -> String {
    let flat = |m: &M| {
        let mut v: Vec<[i64; 3]> = m.iter().map(|(k, v)| [k.o.id, v.v, v.o.id]).collect();
        v.sort();
        v
    };
    let (fa, fb) = (flat(&s.a), flat(&s.b));
    let ks: Vec<i64> = fa.iter().chain(fb.iter()).map(|x| x[0]).collect();
    let vs: Vec<i64> = fa.iter().chain(fb.iter()).map(|x| x[2]).collect();
    let (x, y) = (surplus(1, &ks), surplus(2, &vs));
    let two = |v: &Vec<[i64; 3]>| -> Vec<i64> {
        if full {
            v.iter().flat_map(|x| [x[0], x[1]]).collect()
        } else {
            vec![]
        }
    };
    let l: Vec<i64> = if full {
        (1..=u.n())
            .map(|k| {
                s.a.get_key_value(&key(u, k), &mut (), &mut ())
                    .unwrap()
                    .map(|x| x.0.o.id)
                    .unwrap_or(0)
            })
            .collect()
    } else {
        vec![]
    };
    format!(
        "{{\"q\":{},\"n\":{},\"m\":{},\"d\":{},\"x\":{},\"y\":{},\"a\":{},\"b\":{},\"l\":{}}}",
        full as i64,
        s.a.len(),
        s.b.len(),
        doubles(),
        ints(&x),
        ints(&y),
        ints(&two(&fa)),
        ints(&two(&fb)),
        ints(&l)
    )
}

pub const NAMES: &[(&str, u32)] = &[
    ("insert", 10), ("insert_unique", 2), ("try_insert", 3), ("get", 2), ("contains_key", 2),
    ("get_key_value", 2), ("get_key_value_mut", 2), ("get_mut", 2), ("remove", 4),
    ("remove_entry", 3), ("e_insert", 3), ("e_or_insert", 2), ("e_or_insert_with", 2),
    ("e_or_insert_with_key", 2), ("e_or_default", 2), ("e_key", 1), ("e_and_modify", 2),
    ("e_replace_some", 2), ("e_replace_none", 2), ("e_replace_refill", 2), ("e_remove", 2),
    ("e_remove_entry", 2), ("e_set", 2), ("e_get_mut", 1), ("e_into_mut", 1), ("e_into_key", 1),
    ("e_insert_entry", 2), ("extend", 6), ("from_iter", 2), ("from_ary", 1), ("clear", 1),
    ("clone", 2), ("clone_from", 2), ("swap", 3), ("renew", 1), ("eql", 5), ("reserve", 2),
    ("shrink_to_fit", 1), ("shrink_to", 1), ("capacity", 1), ("len", 1), ("iter", 1), ("keys", 1),
    ("values", 1), ("values_mut", 1), ("iter_mut", 1), ("drain", 1), ("into_iter", 1),
    ("into_keys", 1), ("into_values", 1), ("retain", 2), ("extract_if", 2),
];

fn fault(r: &mut Rng, op: &Op, n: i64, m: i64) -> (Kind, i64) {
    let kinds: &[Kind] = match op.0 {
        "insert" | "extend" | "try_insert" | "e_insert" | "e_or_insert" | "e_or_default"
        | "e_insert_entry" => &[Kind::Eq, Kind::EqP, Kind::Hash, Kind::Hash],
        "e_or_insert_with" | "e_or_insert_with_key" | "e_and_modify" => {
            &[Kind::Eq, Kind::Hash, Kind::Pred]
        }
        "e_replace_some" | "e_replace_none" => &[Kind::Eq, Kind::Pred],
        "insert_unique" | "reserve" | "shrink_to_fit" | "shrink_to" => &[Kind::Hash],
        "get" | "contains_key" | "get_key_value" | "get_key_value_mut" | "get_mut" | "remove"
        | "remove_entry" | "e_key" | "e_remove" | "e_remove_entry" | "e_set" | "eql"
        | "from_iter" | "e_into_key" => &[Kind::Eq, Kind::EqP, Kind::Hash],
        "retain" | "extract_if" => &[Kind::Pred, Kind::Drop],
        "clone" | "clone_from" => &[Kind::Clone, Kind::Clone, Kind::Drop],
        "clear" | "drain" | "into_iter" | "into_keys" | "into_values" | "renew" => &[Kind::Drop],
        _ => return (Kind::None, 0),
    };
    let k = *r.pick(kinds);
    let hi = match k {
        Kind::Eq | Kind::EqP => 3,
        Kind::Drop if op.0.starts_with("clone") => 2 * m.max(1),
        Kind::Drop | Kind::Clone => 2 * n.max(1),
        _ => n.max(1),
    };
    (k, if k == Kind::Pred && op.0.starts_with("e_") { 1 } else { r.range(1, hi) })
}

/// Fill the map up to its capacity, work on the entries it holds, then add a
/// few more: the last operations first.
fn crowd(r: &mut Rng, m: &M, u: &Universe, val: &mut i64) -> Vec<Op> {
    let mut held: Vec<i64> = m.iter().map(|x| x.0.o.id).collect();
    let class = |k: i64| u.c[k as usize - 1];
    let mut absent: Vec<i64> = vec![];
    for k in 1..=u.n() {
        if !held.iter().chain(&absent).any(|x| class(*x) == class(k)) {
            absent.push(k);
        }
    }
    let room = (m.capacity() - m.len()) as i64 - r.range(0, 1);
    let mut ops = vec![];
    let mut put = |absent: &mut Vec<i64>, held: &mut Vec<i64>, n: i64| -> Op {
        let mut a = vec![];
        for _ in 0..n {
            if let Some(k) = absent.pop() {
                *val += 1000;
                a.extend([k, *val]);
                held.push(k);
            }
        }
        ("extend", a)
    };
    ops.push(put(&mut absent, &mut held, room));
    if held.is_empty() {
        return vec![];
    }
    let name = *r.pick(&["e_replace_some", "e_replace_some", "e_replace_refill", "e_set", "e_insert"]);
    for _ in 0..r.range(2, 8) {
        let k = *r.pick(&held);
        let a = if name == "e_set" { vec![k, 7] } else { vec![k, 7, r.below(2) as i64] };
        ops.push((name, a));
    }
    for _ in 0..r.range(1, 3) {
        let n = r.range(1, 3);
        ops.push(put(&mut absent, &mut held, n));
    }
    ops.reverse();
    ops
}

pub fn gen(profile: &str, seed: u64, n: u64, len: usize, out: &mut dyn Write) {
    for h in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003) + h);
        let nk = *r.pick(&[3usize, 6, 6, 12, 12, 24, 30, 60]);
        let u = Universe::random(&mut r, nk, true);
        forget_all();
        let mut s = Two { a: fresh_map(0), b: fresh_map(0) };
        let every = if nk <= 12 { 1 } else if nk <= 24 { 3 } else { 6 };
        write!(out, "{{\"u\":{},\"ev\":[", u.json()).unwrap();
        let mut val = 0;
        let mut rush: Vec<Op> = vec![];
        let w: Vec<u32> = NAMES
            .iter()
            .map(|x| {
                let iterates = matches!(
                    x.0,
                    "iter" | "keys" | "values" | "values_mut" | "iter_mut" | "drain" | "into_iter"
                        | "into_keys" | "into_values" | "retain" | "extract_if"
                );
                let owns = matches!(x.0, "clone" | "clone_from" | "clear" | "renew" | "from_iter");
                match profile {
                    "H05" if iterates => 5,
                    "H06" if iterates || owns => 4,
                    _ => x.1,
                }
            })
            .collect();
        for i in 0..len + 3 {
            let cnt = s.a.len() as i64;
            let name = NAMES[r.weighted(&w)].0;
            let k = r.range(1, nk as i64);
            val += 1000;
            let v = val + r.range(0, 3);
            let alt = r.below(2) as i64;
            let (steps, stop, mode) = (r.range(0, cnt + 1), r.range(0, 2), r.range(0, 2));
            let m = r.range(2, 4);
            let mut many = |r: &mut Rng, c: i64| -> Vec<i64> {
                (0..c)
                    .flat_map(|_| {
                        val += 1000;
                        [r.range(1, nk as i64), val]
                    })
                    .collect()
            };
            let mut op: Op = match name {
                "insert_unique" => {
                    if s.a.contains_key(&key(&u, k), &mut (), &mut ()).unwrap() {
                        ("insert", vec![k, v])
                    } else {
                        (name, vec![k, v])
                    }
                }
                "insert" | "try_insert" | "get_key_value_mut" | "get_mut" | "e_set"
                | "e_get_mut" | "e_into_mut" => (name, vec![k, v]),
                "get" | "contains_key" | "get_key_value" | "remove" | "remove_entry"
                | "e_remove" | "e_remove_entry" | "e_into_key" => (name, vec![k]),
                "e_insert" | "e_or_insert" | "e_or_insert_with" | "e_or_insert_with_key"
                | "e_insert_entry" | "e_replace_some" | "e_replace_none" | "e_replace_refill" => {
                    (name, vec![k, v, alt])
                }
                "e_or_default" | "e_key" => (name, vec![k, alt]),
                "e_and_modify" => (name, vec![k, v, v + 10, alt]),
                "extend" | "from_iter" => {
                    let c = r.range(0, (nk as i64).min(30));
                    (name, many(&mut r, c))
                }
                "from_ary" => (name, many(&mut r, 4)),
                "renew" | "reserve" => (name, vec![r.range(0, 2 * nk as i64)]),
                "shrink_to" => (name, vec![r.range(0, 2 * cnt + 4)]),
                "iter" | "iter_mut" => (name, vec![steps, stop, mode]),
                "values_mut" => (name, vec![steps, alt * 2]),
                "keys" | "values" | "drain" | "into_iter" | "into_keys" | "into_values" => {
                    (name, vec![steps, stop])
                }
                "retain" => (name, vec![m, r.range(0, m - 1)]),
                "extract_if" => (name, vec![m, r.range(0, m - 1), steps]),
                _ => (name, vec![]),
            };
            // copies that differ in one value or one key are the interesting comparands
            if name == "from_iter" && r.chance(2, 3) && cnt > 0 {
                let mut p: Vec<i64> = s.a.iter().flat_map(|(k, v)| [k.o.id, v.v]).collect();
                let j = 2 * r.below(cnt as u64) as usize;
                match r.below(4) {
                    0 => p[j] = k,
                    1 => p[j + 1] = v,
                    2 => {
                        p.truncate(j);
                    }
                    _ => {}
                }
                op = (name, p);
            }
            if rush.is_empty() && nk >= 24 && r.chance(1, 30) {
                rush = crowd(&mut r, &s.a, &u, &mut val);
            }
            if let Some(x) = rush.pop() {
                op = x;
            }
            if i >= len {
                op = if i == len + 1 { ("swap", vec![]) } else { ("renew", vec![0]) };
            }
            let f = match profile {
                "H06" if r.chance(1, 2) => fault(&mut r, &op, s.a.len() as i64, s.b.len() as i64),
                "H03" if r.chance(1, 6) => {
                    let f = fault(&mut r, &op, s.a.len() as i64, s.b.len() as i64);
                    if f.0 == Kind::Eq { f } else { (Kind::None, 0) }
                }
                _ => (Kind::None, 0),
            };
            about_to(|| format!("map history seed={seed} h={h} event {i} {}", op_json(&op)));
            plan(f.0, f.1);
            let res = catch_unwind(AssertUnwindSafe(|| step(&mut s, &u, &op)));
            let fired = unplan();
            let res: Res = match res {
                Ok(Ok(v)) => ("ok", v),
                Ok(Err(c)) => ("err", vec![c]),
                Err(_) => ("panic", take_seen()),
            };
            let full = fired || i % every == 0 || i + 1 >= len;
            write!(
                out,
                "{}{{\"o\":{},\"f\":[\"{}\",[{}]],\"p\":{},\"r\":{},\"s\":{}}}",
                if i > 0 { "," } else { "" },
                op_json(&op),
                f.0.name(),
                f.1,
                fired as i64,
                res_json(&res),
                observe(&s, &u, full)
            )
            .unwrap();
        }
        writeln!(out, "]}}").unwrap();
    }
    out.flush().unwrap();
}
