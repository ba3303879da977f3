//! Executes and records histories of `RubyMap`.
use crate::keys::*;
use common::{about_to, ints, op_json, res_json, Op, Res, Rng};
use rubymap::map::{Entry, OccupiedEntry, RubyMap};
use rubymap::{RubyEql, RubyHash};
use std::collections::hash_map::RandomState;
use std::hash::{BuildHasher, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type M<S> = RubyMap<Key, Val, Ctx, (), i64, S>;

/// The parts of the API that exist for the default hasher only.
pub trait Build: BuildHasher + Default + Clone + 'static {
    fn meq(a: &M<Self>, b: &M<Self>, e: &mut Ctx) -> Result<bool, i64>;
    fn ary(x: [(Key, Val); 4], e: &mut Ctx) -> Result<M<Self>, i64>;
    const FULL: bool;
}
impl Build for RandomState {
    fn meq(a: &M<Self>, b: &M<Self>, e: &mut Ctx) -> Result<bool, i64> {
        a.eql(b, e, &mut ())
    }
    fn ary(x: [(Key, Val); 4], e: &mut Ctx) -> Result<M<Self>, i64> {
        RubyMap::from_ary(x, e, &mut ())
    }
    const FULL: bool = true;
}
impl Build for IdBuild {
    fn meq(_: &M<Self>, _: &M<Self>, _: &mut Ctx) -> Result<bool, i64> {
        unreachable!()
    }
    fn ary(_: [(Key, Val); 4], _: &mut Ctx) -> Result<M<Self>, i64> {
        unreachable!()
    }
    const FULL: bool = false;
}

pub struct St<S> {
    pub a: M<S>,
    pub b: M<S>,
}

fn opt(v: Option<i64>) -> Vec<i64> {
    v.into_iter().collect()
}
fn kv(x: Option<(i64, i64)>) -> Vec<i64> {
    x.map(|(k, v)| vec![k, v]).unwrap_or_default()
}
fn rd(x: Option<(&Key, &Val)>) -> Vec<i64> {
    kv(x.map(|(k, v)| (k.id(), v.0)))
}
fn own(x: Option<(Key, Val)>) -> Vec<i64> {
    kv(x.map(|(k, v)| (k.id(), v.0)))
}
fn own3(x: Option<(usize, Key, Val)>) -> Vec<i64> {
    x.map(|(i, k, v)| vec![i as i64, k.id(), v.0]).unwrap_or_default()
}

macro_rules! script {
    ($it:expr, $script:expr, $x:ident => $enc:expr, $clone:ident) => {{
        let mut it = $it;
        let mut out: Vec<i64> = vec![];
        let mut sc = $script.iter().peekable();
        let mut rest: Option<i64> = None;
        while let Some(c) = sc.next() {
            let step = match c {
                0 => Some(it.next()),
                1 => Some(it.next_back()),
                2 => Some(it.nth(1)),
                3 => Some(it.nth_back(1)),
                _ => None,
            };
            if let Some(s) = step {
                match s {
                    None => out.push(-1),
                    Some($x) => out.extend($enc),
                }
                continue;
            }
            match c {
                4 => {
                    out.push(it.len() as i64);
                    let (lo, hi) = it.size_hint();
                    out.push(lo as i64);
                    out.push(hi.map(|x| x as i64).unwrap_or(-1));
                }
                5 | 6 | 7 => script!(@ $clone it, c, out, $x => $enc),
                8 | 9 => {
                    rest = Some(*c);
                    break;
                }
                _ => unreachable!(),
            }
        }
        match rest {
            Some(8) => {
                it.for_each(|$x| out.extend($enc));
                out.push(-2);
            }
            Some(_) => {
                it.rev().for_each(|$x| out.extend($enc));
                out.push(-2);
            }
            None => {}
        }
        out
    }};
    (@ yes $it:ident, $c:ident, $out:ident, $x:ident => $enc:expr) => {{
        let cl = $it.clone();
        match $c {
            5 => {
                for $x in cl.collect::<Vec<_>>() {
                    $out.extend($enc);
                }
                $out.push(-2);
            }
            6 => match cl.last() {
                None => $out.push(-1),
                Some($x) => $out.extend($enc),
            },
            _ => $out.push(cl.count() as i64),
        }
    }};
    (@ no $it:ident, $c:ident, $out:ident, $x:ident => $enc:expr) => {{
        unreachable!()
    }};
}
pub(crate) use script;

pub fn digest<S: Build>(m: &M<S>, k: &Key) -> usize {
    let mut h = m.hasher().build_hasher();
    k.ruby_hash(&mut h, &mut Ctx::default(), &mut ()).unwrap();
    h.finish() as usize
}

fn exec<S: Build>(st: &mut St<S>, op: &Op, u: &Universe, e: &mut Ctx) -> Result<Vec<i64>, i64> {
    let (n, x) = (op.0, &op.1);
    let g = &mut ();
    let key = |i: usize| u.key(x[i]);
    let val = |i: usize| Val::new(x[i]);
    let us = |i: usize| x[i] as usize;
    let kvs = || -> Vec<(Key, Val)> {
        x.chunks(2).map(|p| (u.key(p[0]), Val::new(p[1]))).collect()
    };
    let cap0 = st.a.capacity() as i64;
    let m = &mut st.a;
    Ok(match n {
        "get" => opt(m.get(&key(0), e, g)?.map(|v| v.0)),
        "contains" => vec![m.contains_key(&key(0), e, g)? as i64],
        "get_key_value" => rd(m.get_key_value(&key(0), e, g)?),
        "get_full" => m
            .get_full(&key(0), e, g)?
            .map(|(i, k, v)| vec![i as i64, k.id(), v.0])
            .unwrap_or_default(),
        "get_index_of" => opt(m.get_index_of(&key(0), e, g)?.map(|i| i as i64)),
        "get_index" => rd(m.get_index(us(0))),
        "index" => vec![m[us(0)].0],
        "first" => rd(m.first()),
        "last" => rd(m.last()),
        "len" => vec![m.len() as i64, m.is_empty() as i64],
        "get_range" => match m.get_range(us(0)..us(1)) {
            None => vec![0],
            Some(s) => {
                let mut o = vec![1];
                for (k, v) in s {
                    o.extend([k.id(), v.0]);
                }
                o
            }
        },
        "get_mut" => opt(m
            .get_mut(&key(0), e, g)?
            .map(|v| std::mem::replace(v, val(1)).0)),
        "get_full_mut" => m
            .get_full_mut(&key(0), e, g)?
            .map(|(i, k, v)| vec![i as i64, k.id(), std::mem::replace(v, val(1)).0])
            .unwrap_or_default(),
        "get_index_mut" => kv(m
            .get_index_mut(us(0))
            .map(|(k, v)| (k.id(), std::mem::replace(v, val(1)).0))),
        "index_mut" => vec![std::mem::replace(&mut m[us(0)], val(1)).0],
        "first_mut" => kv(m
            .first_mut()
            .map(|(k, v)| (k.id(), std::mem::replace(v, val(0)).0))),
        "last_mut" => kv(m
            .last_mut()
            .map(|(k, v)| (k.id(), std::mem::replace(v, val(0)).0))),
        "get_range_mut" => match m.get_range_mut(us(0)..us(1)) {
            None => vec![0],
            Some(s) => {
                for (_, v) in s {
                    v.0 += 1;
                }
                vec![1]
            }
        },
        "get_disjoint" => {
            let r = m.get_disjoint_mut([&key(0), &key(1)], e, g)?;
            r.into_iter()
                .map(|o| match o {
                    None => -1,
                    Some(v) => {
                        v.0 += 1;
                        v.0 - 1
                    }
                })
                .collect()
        }
        "get_disjoint_idx" => match m.get_disjoint_indices_mut([us(0), us(1)]) {
            Err(_) => vec![],
            Ok(r) => r
                .into_iter()
                .flat_map(|(k, v)| {
                    v.0 += 1;
                    [k.id(), v.0 - 1]
                })
                .collect(),
        },
        "insert" => opt(m.insert(key(0), val(1), e, g)?.map(|v| v.0)),
        "insert_full" => {
            let (i, o) = m.insert_full(key(0), val(1), e, g)?;
            let mut r = vec![i as i64];
            r.extend(o.map(|v| v.0));
            r
        }
        "sym_insert" => opt(m.insert_sym(key(0).0, val(1)).map(|v| v.0)),
        "sym_insert_full" => {
            let (i, o) = m.insert_sym_full(key(0).0, val(1));
            let mut r = vec![i as i64];
            r.extend(o.map(|v| v.0));
            r
        }
        "pre_insert" => {
            let h = digest(m, &key(0));
            opt(m.insert_prehashed(h, key(0), val(1)).map(|v| v.0))
        }
        "pre_get" => {
            let h = digest(m, &key(0));
            opt(m.get_prehashed(h, &key(0), e, g)?.map(|v| v.0))
        }
        "pre_insert_with" => {
            let h = digest(m, &key(0));
            let k = key(0);
            opt(m.insert_prehashed_with(h, key(0), val(1), |o| *o == k).map(|v| v.0))
        }
        "pre_get_with" => {
            let h = digest(m, &key(0));
            let k = key(0);
            opt(m.get_prehashed_with(h, |o| *o == k, e, g)?.map(|v| v.0))
        }
        "insert_sorted" => {
            let (i, o) = m.insert_sorted(key(0), val(1), e, g)?;
            let mut r = vec![i as i64];
            r.extend(o.map(|v| v.0));
            r
        }
        "insert_before" => {
            let (i, o) = m.insert_before(us(0), key(1), val(2), e, g)?;
            let mut r = vec![i as i64];
            r.extend(o.map(|v| v.0));
            r
        }
        "shift_insert" => opt(m.shift_insert(us(0), key(1), val(2), e, g)?.map(|v| v.0)),
        "swap_remove" => opt(m.swap_remove(&key(0), e, g)?.map(|v| v.0)),
        "swap_remove_entry" => own(m.swap_remove_entry(&key(0), e, g)?),
        #[allow(deprecated)]
        "remove_entry" => own(m.remove_entry(&key(0), e, g)?),
        "swap_remove_full" => own3(m.swap_remove_full(&key(0), e, g)?),
        "shift_remove" => opt(m.shift_remove(&key(0), e, g)?.map(|v| v.0)),
        "shift_remove_entry" => own(m.shift_remove_entry(&key(0), e, g)?),
        "shift_remove_full" => own3(m.shift_remove_full(&key(0), e, g)?),
        "swap_remove_index" => own(m.swap_remove_index(us(0), e, g)?),
        "shift_remove_index" => own(m.shift_remove_index(us(0), e, g)?),
        "pop" => own(m.pop(e, g)?),
        "clear" => {
            m.clear();
            vec![]
        }
        "tombstone_remove" => own3(m.tombstone_remove(&key(0), dead(), Val::new(0), e, g)?),
        "tombstone_index" => own(m.tombstone_index(us(0), dead(), Val::new(0), e, g)?),
        "compact" => {
            m.compact_tombstones(|k| k.id() == 0);
            vec![]
        }
        "e_probe" => match m.entry(key(0), e, g)? {
            Entry::Occupied(o) => {
                let i = o.index() as i64;
                let r = vec![1, i, o.key().id(), o.get().0];
                r
            }
            Entry::Vacant(v) => vec![0, v.index() as i64, v.key().id()],
        },
        "e_or_insert" => vec![m.entry(key(0), e, g)?.or_insert(val(1)).0],
        "e_or_insert_with" => vec![m.entry(key(0), e, g)?.or_insert_with(|| val(1)).0],
        "e_or_insert_with_key" => {
            vec![m
                .entry(key(0), e, g)?
                .or_insert_with_key(|k| Val::new(k.id() * 10))
                .0]
        }
        "e_or_default" => vec![m.entry(key(0), e, g)?.or_default().0],
        "e_insert_entry" => {
            let o = m.entry(key(0), e, g)?.insert_entry(val(1));
            vec![o.index() as i64, o.key().id(), o.get().0]
        }
        "e_and_modify" => vec![m.entry(key(0), e, g)?.and_modify(|v| v.0 += 1).or_insert(val(1)).0],
        "e_occ_insert" => match m.entry(key(0), e, g)? {
            Entry::Occupied(mut o) => vec![o.insert(val(1)).0],
            _ => vec![],
        },
        "e_occ_get_mut" => match m.entry(key(0), e, g)? {
            Entry::Occupied(mut o) => {
                let old = o.get().0;
                if old % 2 == 0 {
                    *o.get_mut() = val(1);
                } else {
                    *o.into_mut() = val(1);
                }
                vec![old]
            }
            _ => vec![],
        },
        "e_occ_swap_remove" => match m.entry(key(0), e, g)? {
            Entry::Occupied(o) => vec![o.swap_remove(e, g)?.0],
            _ => vec![],
        },
        #[allow(deprecated)]
        "e_occ_remove" => match m.entry(key(0), e, g)? {
            Entry::Occupied(o) => vec![o.remove(e, g)?.0],
            _ => vec![],
        },
        "e_occ_swap_remove_entry" => match m.entry(key(0), e, g)? {
            Entry::Occupied(o) => own(Some(o.swap_remove_entry(e, g)?)),
            _ => vec![],
        },
        #[allow(deprecated)]
        "e_occ_remove_entry" => match m.entry(key(0), e, g)? {
            Entry::Occupied(o) => own(Some(o.remove_entry(e, g)?)),
            _ => vec![],
        },
        "e_occ_shift_remove" => match m.entry(key(0), e, g)? {
            Entry::Occupied(o) => vec![o.shift_remove(e, g)?.0],
            _ => vec![],
        },
        "e_occ_shift_remove_entry" => match m.entry(key(0), e, g)? {
            Entry::Occupied(o) => own(Some(o.shift_remove_entry(e, g)?)),
            _ => vec![],
        },
        "e_occ_move" => match m.entry(key(0), e, g)? {
            Entry::Occupied(o) => {
                o.move_index(us(1), e, g)?;
                vec![1]
            }
            _ => vec![0],
        },
        "e_vac_insert" => match m.entry(key(0), e, g)? {
            Entry::Vacant(v) => vec![v.insert(val(1)).0],
            _ => vec![],
        },
        "e_vac_insert_entry" => match m.entry(key(0), e, g)? {
            Entry::Vacant(v) => {
                let o = v.insert_entry(val(1));
                vec![o.index() as i64, o.key().id(), o.get().0]
            }
            _ => vec![],
        },
        "e_vac_into_key" => match m.entry(key(0), e, g)? {
            Entry::Vacant(v) => vec![v.into_key().id()],
            _ => vec![],
        },
        "e_vac_shift_insert" => match m.entry(key(0), e, g)? {
            Entry::Vacant(v) => vec![v.shift_insert(us(1), val(2), e, g)?.0],
            _ => vec![],
        },
        "e_vac_insert_sorted" => match m.entry(key(0), e, g)? {
            Entry::Vacant(v) => {
                let (i, r) = v.insert_sorted(val(1), e, g)?;
                vec![i as i64, r.0]
            }
            _ => vec![],
        },
        "e_to_indexed" => match m.entry(key(0), e, g)? {
            Entry::Occupied(o) => {
                let i = rubymap::map::IndexedEntry::from(o);
                vec![i.index() as i64, i.key().id(), i.get().0]
            }
            _ => vec![],
        },
        "ie_probe" => m
            .get_index_entry(us(0))
            .map(|i| vec![i.index() as i64, i.key().id(), i.get().0])
            .unwrap_or_default(),
        "ie_first" => m
            .first_entry()
            .map(|i| vec![i.index() as i64, i.key().id(), i.get().0])
            .unwrap_or_default(),
        "ie_last" => m
            .last_entry()
            .map(|i| vec![i.index() as i64, i.key().id(), i.get().0])
            .unwrap_or_default(),
        "ie_insert" => opt(m.get_index_entry(us(0)).map(|mut i| {
            if x[1] % 2 == 0 {
                i.insert(val(1)).0
            } else {
                let old = i.get_mut().0;
                *i.into_mut() = val(1);
                old
            }
        })),
        "ie_swap_remove" => match m.get_index_entry(us(0)) {
            Some(i) => vec![i.swap_remove(e, g)?.0],
            None => vec![],
        },
        "ie_swap_remove_entry" => match m.get_index_entry(us(0)) {
            Some(i) => own(Some(i.swap_remove_entry(e, g)?)),
            None => vec![],
        },
        "ie_shift_remove" => match m.get_index_entry(us(0)) {
            Some(i) => vec![i.shift_remove(e, g)?.0],
            None => vec![],
        },
        "ie_shift_remove_entry" => match m.get_index_entry(us(0)) {
            Some(i) => own(Some(i.shift_remove_entry(e, g)?)),
            None => vec![],
        },
        "ie_move" => match m.get_index_entry(us(0)) {
            Some(i) => {
                i.move_index(us(1), e, g)?;
                vec![1]
            }
            None => vec![0],
        },
        "ie_to_occupied" => match m.get_index_entry(us(0)) {
            Some(i) => {
                let o = OccupiedEntry::from_index(i, e, g)?;
                vec![o.index() as i64, o.key().id(), o.get().0]
            }
            None => vec![],
        },
        "move_index" => {
            m.move_index(us(0), us(1), e, g)?;
            vec![]
        }
        "sort_keys" => {
            m.sort_keys();
            vec![]
        }
        "sort_unstable_keys" => {
            m.sort_unstable_keys();
            vec![]
        }
        "sort_by" => {
            m.sort_by(|_, a, _, b| (a.0 % x[0]).cmp(&(b.0 % x[0])));
            vec![]
        }
        "sort_by_cached_key" => {
            m.sort_by_cached_key(|_, a| a.0 % x[0]);
            vec![]
        }
        "sort_unstable_by" => {
            m.sort_unstable_by(|k, a, l, b| (a.0 % x[0]).cmp(&(b.0 % x[0])).then(k.cmp(l)));
            vec![]
        }
        "sorted_by" => m
            .clone()
            .sorted_by(|_, a, _, b| (a.0 % x[0]).cmp(&(b.0 % x[0])))
            .flat_map(|(k, v)| [k.id(), v.0])
            .collect(),
        "sorted_unstable_by" => m
            .clone()
            .sorted_unstable_by(|k, a, l, b| (a.0 % x[0]).cmp(&(b.0 % x[0])).then(k.cmp(l)))
            .flat_map(|(k, v)| [k.id(), v.0])
            .collect(),
        "reverse" => {
            m.reverse();
            vec![]
        }
        "retain" => {
            let mut seen = vec![];
            m.retain(|k, v| {
                seen.extend([k.id(), v.0]);
                let keep = v.0 % x[0] != x[1];
                v.0 += 1;
                keep
            });
            seen
        }
        "drain" => {
            let mut d = m.drain(us(0)..us(1), e, g)?;
            let mut o = vec![d.len() as i64];
            for _ in 0..x[2] {
                if let Some((k, v)) = d.next() {
                    o.extend([k.id(), v.0]);
                }
            }
            for _ in 0..x[3] {
                if let Some((k, v)) = d.next_back() {
                    o.extend([k.id(), v.0]);
                }
            }
            o.push(d.as_slice().len() as i64);
            o
        }
        "split_off" => {
            let b = m.split_off(us(0), e, g)?;
            st.b = b;
            vec![]
        }
        "truncate" => {
            m.truncate(us(0), e, g)?;
            vec![]
        }
        "append" => {
            st.a.append(&mut st.b, e, g)?;
            vec![]
        }
        "extend" => {
            m.extend(kvs(), e, g)?;
            vec![]
        }
        "from_iter" => {
            let new = M::<S>::from_iter(kvs(), e, g)?;
            st.a = new;
            vec![]
        }
        "from_ary" => {
            let mut it = kvs().into_iter();
            let mut nx = || it.next().unwrap();
            let new = S::ary([nx(), nx(), nx(), nx()], e)?;
            st.a = new;
            vec![]
        }
        "binary_search_keys" => match m.binary_search_keys(&key(0)) {
            Ok(i) => vec![1, i as i64],
            Err(i) => vec![0, i as i64],
        },
        "binary_search_by" => match m.binary_search_by(|k, _| k.cmp(&key(0))) {
            Ok(i) => vec![1, i as i64],
            Err(i) => vec![0, i as i64],
        },
        "binary_search_by_key" => match m.binary_search_by_key(&key(0).0.cls, |k, _| k.0.cls) {
            Ok(i) => vec![1, i as i64],
            Err(i) => vec![0, i as i64],
        },
        "partition_point" => vec![m.partition_point(|k, _| k.0.cls < key(0).0.cls) as i64],
        "swap" => {
            std::mem::swap(&mut st.a, &mut st.b);
            vec![]
        }
        "clone" => {
            st.b = m.clone();
            vec![]
        }
        "clone_from" => {
            st.b.clone_from(&st.a);
            vec![]
        }
        "map_keys" => {
            let old = std::mem::take(m);
            *m = old.map_keys(|k| Key(k.0));
            vec![]
        }
        "map_keys_opt" => {
            let old = std::mem::take(m);
            let o: RubyMap<Option<Key>, Val, Ctx, (), i64, S> = old.map_keys(Some);
            *m = o.map_keys(|k| k.unwrap());
            vec![]
        }
        "eq" => {
            let x = S::meq(&st.a, &st.b, e);
            let y = S::meq(&st.b, &st.a, e);
            vec![x? as i64, y? as i64]
        }
        "bump_values" => {
            match x[0] {
                0 => m.values_mut().for_each(|v| v.0 += 1),
                1 => m.iter_mut().for_each(|(_, v)| v.0 += 1),
                2 => m.as_mut_slice().values_mut().for_each(|v| v.0 += 1),
                3 => {
                    for (_, v) in &mut *m {
                        v.0 += 1
                    }
                }
                _ => m.iter_mut().rev().for_each(|(_, v)| v.0 += 1),
            }
            vec![]
        }
        "iter" => {
            let sc = &x[1..];
            match x[0] {
                0 => script!(m.iter(), sc, y => [y.0.id(), y.1.0], yes),
                1 => script!(m.iter_mut(), sc, y => [y.0.id(), y.1.0], no),
                2 => script!(m.clone().into_iter(), sc, y => [y.0.id(), y.1.0], no),
                3 => script!(m.keys(), sc, y => [y.id()], yes),
                4 => script!(m.clone().into_keys(), sc, y => [y.id()], no),
                5 => script!(m.values(), sc, y => [y.0], yes),
                6 => script!(m.values_mut(), sc, y => [y.0], no),
                7 => script!(m.clone().into_values(), sc, y => [y.0], no),
                8 => script!(m.as_slice().iter(), sc, y => [y.0.id(), y.1.0], yes),
                9 => script!(m.clone().into_boxed_slice().into_iter(), sc, y => [y.0.id(), y.1.0], no),
                10 => script!(m.as_slice().keys(), sc, y => [y.id()], yes),
                11 => script!(m.as_slice().values(), sc, y => [y.0], yes),
                12 => script!(m.as_mut_slice().iter_mut(), sc, y => [y.0.id(), y.1.0], no),
                13 => script!(m.as_mut_slice().values_mut(), sc, y => [y.0], no),
                14 => script!(m.clone().into_boxed_slice().into_keys(), sc, y => [y.id()], no),
                15 => script!(m.clone().into_boxed_slice().into_values(), sc, y => [y.0], no),
                16 => {
                    let end = m.len();
                    let mut c = m.clone();
                    let r = script!(c.drain(0..end, e, g)?, sc, y => [y.0.id(), y.1.0], no);
                    assert!(c.is_empty());
                    r
                }
                _ => unreachable!(),
            }
        }
        "slice" => match m.get_range(us(0)..us(1)) {
            None => vec![0],
            Some(s) => {
                let mut o = vec![1, s.len() as i64, s.is_empty() as i64];
                o.extend(rd(s.first()));
                o.extend(rd(s.last()));
                o.extend(rd(s.get_index(us(2))));
                let mid = us(2).min(s.len());
                let (l, r) = s.split_at(mid);
                o.extend(l.keys().map(|k| k.id()));
                o.push(-2);
                o.extend(r.values().map(|v| v.0));
                o.push(-2);
                if let Some(((k, v), rest)) = s.split_first() {
                    o.extend([k.id(), v.0]);
                    o.extend(rest.keys().map(|k| k.id()));
                }
                o.push(-2);
                if let Some(((k, v), rest)) = s.split_last() {
                    o.extend([k.id(), v.0]);
                    o.extend(rest.keys().map(|k| k.id()));
                }
                o
            }
        },
        "reserve" => {
            m.reserve(us(0));
            vec![cap0, m.capacity() as i64]
        }
        "reserve_exact" => {
            m.reserve_exact(us(0));
            vec![cap0, m.capacity() as i64]
        }
        "shrink_to_fit" => {
            m.shrink_to_fit();
            vec![cap0, m.capacity() as i64]
        }
        "shrink_to" => {
            m.shrink_to(us(0));
            vec![cap0, m.capacity() as i64]
        }
        "capacity" => vec![cap0, m.capacity() as i64],
        "with_capacity" => {
            *m = M::<S>::with_capacity_and_hasher(us(0), S::default());
            vec![cap0, m.capacity() as i64]
        }
        _ => panic!("no such op {n}"),
    })
}

/// Arguments an operation takes.
#[derive(Clone, Copy, PartialEq)]
enum A {
    No,
    K,
    KV,
    V,
    I,
    IV,
    II,
    IKV,
    KK,
    KI,
    KIV,
    Cap,
    Mod,
    Retain,
    Drain,
    List,
    List4,
    Range,
    Range3,
    Kind5,
    Script,
}

// (operation, arguments, needs keys in order, default hasher only)
const OPS: &[(&str, A)] = &[
    ("get", A::K), ("contains", A::K), ("get_key_value", A::K), ("get_full", A::K),
    ("get_index_of", A::K), ("get_index", A::I), ("index", A::I), ("first", A::No),
    ("last", A::No), ("len", A::No), ("get_range", A::Range), ("get_mut", A::KV),
    ("get_full_mut", A::KV), ("get_index_mut", A::IV), ("index_mut", A::IV),
    ("first_mut", A::V), ("last_mut", A::V), ("get_range_mut", A::Range),
    ("get_disjoint", A::KK), ("get_disjoint_idx", A::II), ("insert", A::KV),
    ("insert_full", A::KV), ("sym_insert", A::KV), ("sym_insert_full", A::KV),
    ("pre_insert", A::KV), ("pre_get", A::K), ("pre_insert_with", A::KV),
    ("pre_get_with", A::K), ("insert_sorted", A::KV), ("insert_before", A::IKV),
    ("shift_insert", A::IKV), ("swap_remove", A::K), ("swap_remove_entry", A::K),
    ("remove_entry", A::K), ("swap_remove_full", A::K), ("shift_remove", A::K),
    ("shift_remove_entry", A::K), ("shift_remove_full", A::K), ("swap_remove_index", A::I),
    ("shift_remove_index", A::I), ("pop", A::No), ("clear", A::No),
    ("tombstone_remove", A::K), ("tombstone_index", A::I), ("compact", A::No),
    ("e_probe", A::K), ("e_or_insert", A::KV), ("e_or_insert_with", A::KV),
    ("e_or_insert_with_key", A::K), ("e_or_default", A::K), ("e_insert_entry", A::KV),
    ("e_and_modify", A::KV), ("e_occ_insert", A::KV), ("e_occ_get_mut", A::KV),
    ("e_occ_swap_remove", A::K), ("e_occ_remove", A::K), ("e_occ_swap_remove_entry", A::K),
    ("e_occ_remove_entry", A::K), ("e_occ_shift_remove", A::K),
    ("e_occ_shift_remove_entry", A::K), ("e_occ_move", A::KI), ("e_vac_insert", A::KV),
    ("e_vac_insert_entry", A::KV), ("e_vac_into_key", A::K), ("e_vac_shift_insert", A::KIV),
    ("e_vac_insert_sorted", A::KV), ("e_to_indexed", A::K), ("ie_probe", A::I),
    ("ie_first", A::No), ("ie_last", A::No), ("ie_insert", A::IV), ("ie_swap_remove", A::I),
    ("ie_swap_remove_entry", A::I), ("ie_shift_remove", A::I), ("ie_shift_remove_entry", A::I),
    ("ie_move", A::II), ("ie_to_occupied", A::I), ("move_index", A::II), ("sort_keys", A::No),
    ("sort_unstable_keys", A::No), ("sort_by", A::Mod), ("sort_by_cached_key", A::Mod),
    ("sort_unstable_by", A::Mod), ("sorted_by", A::Mod), ("sorted_unstable_by", A::Mod),
    ("reverse", A::No), ("retain", A::Retain), ("drain", A::Drain), ("split_off", A::I),
    ("truncate", A::I), ("append", A::No), ("extend", A::List), ("from_iter", A::List),
    ("from_ary", A::List4), ("binary_search_keys", A::K), ("binary_search_by", A::K),
    ("binary_search_by_key", A::K), ("partition_point", A::K), ("swap", A::No),
    ("clone", A::No), ("clone_from", A::No), ("map_keys", A::No), ("map_keys_opt", A::No),
    ("eq", A::No), ("bump_values", A::Kind5), ("iter", A::Script), ("slice", A::Range3),
    ("reserve", A::Cap), ("reserve_exact", A::Cap), ("shrink_to_fit", A::No),
    ("shrink_to", A::Cap), ("capacity", A::No), ("with_capacity", A::Cap),
];

pub fn op_names() -> Vec<&'static str> {
    OPS.iter().map(|x| x.0).collect()
}

fn needs_sorted(n: &str) -> bool {
    matches!(
        n,
        "insert_sorted" | "e_vac_insert_sorted" | "binary_search_keys" | "binary_search_by"
            | "binary_search_by_key" | "partition_point"
    )
}

/// 1 grows, -1 shrinks, 0 neither
fn effect(n: &str) -> i32 {
    if n.starts_with("insert") || n.ends_with("insert") || n.contains("_insert_entry")
        || n.contains("or_insert") || n.contains("or_default") || n.starts_with("sym_")
        || n.starts_with("pre_insert") || n == "shift_insert" || n == "extend"
        || n == "e_vac_shift_insert" || n == "e_and_modify"
    {
        1
    } else if n.contains("remove") || n == "pop" {
        -1
    } else {
        0
    }
}

fn weight(profile: &str, n: &str) -> u32 {
    let lookup = matches!(n, "get" | "contains" | "get_key_value" | "get_full" | "get_index_of");
    let plain_rm = matches!(
        n,
        "swap_remove" | "swap_remove_entry" | "remove_entry" | "swap_remove_full" | "shift_remove"
            | "shift_remove_entry" | "shift_remove_full" | "pop" | "swap_remove_index"
            | "shift_remove_index"
    );
    let plain_ins = matches!(n, "insert" | "insert_full");
    let base = if plain_ins { 8 } else if plain_rm { 2 } else if n == "swap" { 1 } else if lookup { 1 } else { 0 };
    match profile {
        "M01" => match n {
            "insert" => 14,
            "insert_full" => 8,
            "get_index" | "index" | "first" | "last" | "len" | "get_range" | "get_mut"
            | "get_full_mut" | "get_index_mut" | "index_mut" | "first_mut" | "last_mut"
            | "get_range_mut" | "get_disjoint" | "get_disjoint_idx" => 2,
            "clear" => 1,
            _ if plain_rm => 4,
            _ if lookup => 2,
            "swap" | "clone" => 1,
            _ => 0,
        },
        "M02" => match n {
            "extend" | "append" | "from_iter" | "eq" => 3,
            "clone" => 1,
            "tombstone_remove" => 0,
            "insert_before" | "shift_insert" | "get_mut" | "get_full_mut" => 3,
            _ if n.starts_with("e_vac") && n != "e_vac_insert_sorted" => 2,
            _ if n.starts_with("e_") && n != "e_vac_insert_sorted" => 1,
            _ if plain_ins => 12,
            _ if matches!(n, "swap_remove_index" | "shift_remove_index" | "pop") => 1,
            _ if plain_rm => 4,
            _ if lookup => 4,
            "swap" => 1,
            _ => 0,
        },
        "M04" => match n {
            _ if n.starts_with("e_") || n.starts_with("ie_") => 4,
            _ => base,
        },
        "M05" => match n {
            "move_index" | "insert_before" | "shift_insert" | "insert_sorted" | "sort_keys"
            | "sort_unstable_keys" | "sort_by" | "sort_by_cached_key" | "sort_unstable_by"
            | "sorted_by" | "sorted_unstable_by" | "reverse" | "drain"
            | "split_off" | "append" | "extend" | "binary_search_keys" | "binary_search_by"
            | "binary_search_by_key" | "partition_point" | "get_range" => 4,
            "retain" | "truncate" => 3,
            "insert" | "insert_full" => 14,
            _ => base,
        },
        "M06" => match n {
            "sym_insert" | "sym_insert_full" | "pre_insert" | "pre_insert_with" => 8,
            "pre_get" | "pre_get_with" => 4,
            "map_keys" | "map_keys_opt" => 2,
            "clone" | "append" | "reverse" => 1,
            _ => base,
        },
        "M07" => match n {
            "eq" => 10,
            "clone" | "clone_from" | "from_iter" | "from_ary" | "extend" | "map_keys"
            | "map_keys_opt" | "append" => 3,
            "swap" => 4,
            "sort_keys" | "reverse" | "reserve" | "shrink_to_fit" | "get_mut" => 2,
            _ => base,
        },
        "M08" => match n {
            "iter" => 40,
            "slice" | "drain" | "bump_values" | "retain" => 4,
            "get_range" => 3,
            _ => base,
        },
        "M09" => match n {
            "reserve" | "reserve_exact" | "shrink_to_fit" | "shrink_to" => 6,
            "capacity" => 3,
            "with_capacity" | "clear" | "truncate" | "split_off" | "clone" | "clone_from" | "append" => 1,
            _ => base,
        },
        _ => panic!("profile"),
    }
}

pub fn index(r: &mut Rng, len: usize) -> i64 {
    if r.chance(1, 12) {
        len as i64 + r.below(3) as i64
    } else if len == 0 {
        0
    } else if r.chance(1, 4) {
        *r.pick(&[0, len as i64 - 1, len as i64 / 2])
    } else {
        r.below(len as u64) as i64
    }
}
pub fn range(r: &mut Rng, len: usize) -> (i64, i64) {
    let a = r.below(len as u64 + 1) as i64;
    let b = r.below(len as u64 + 1) as i64;
    let (lo, hi) = (a.min(b), a.max(b));
    match r.below(14) {
        0 => (lo, len as i64 + 1 + r.below(2) as i64),
        1 if lo < hi => (hi, lo),
        2 => (0, len as i64),
        _ => (lo, hi),
    }
}
fn script_args(r: &mut Rng, len: usize) -> Vec<i64> {
    let kind = r.below(17) as i64;
    let cloneable = matches!(kind, 0 | 3 | 5 | 8 | 10 | 11);
    let mut v = vec![kind];
    let n = 1 + r.below((len as u64 + 3).min(14));
    for _ in 0..n {
        v.push(match r.below(if cloneable { 10 } else { 8 }) {
            0 | 1 => 0,
            2 | 3 => 1,
            4 => 2,
            5 => 3,
            6 | 7 => 4,
            8 => 5,
            _ => 6 + r.below(2) as i64,
        });
    }
    match r.below(3) {
        0 => v.push(8),
        1 => v.push(9),
        _ => {}
    }
    v
}

fn args(r: &mut Rng, a: A, nk: i64, len: usize) -> Vec<i64> {
    let k = |r: &mut Rng| r.range(1, nk);
    let v = |r: &mut Rng| r.range(1, 50);
    match a {
        A::No => vec![],
        A::K => vec![k(r)],
        A::KV => vec![k(r), v(r)],
        A::V => vec![v(r)],
        A::I => vec![index(r, len)],
        A::IV => vec![index(r, len), v(r)],
        A::II => vec![index(r, len), index(r, len)],
        A::IKV => vec![if r.chance(1, 5) { len as i64 } else { index(r, len) }, k(r), v(r)],
        A::KK => vec![k(r), k(r)],
        A::KI => vec![k(r), index(r, len)],
        A::KIV => vec![k(r), if r.chance(1, 5) { len as i64 } else { index(r, len) }, v(r)],
        A::Cap => vec![*r.pick(&[0, 1, 3, 7, 8, 9, 16, 28, 57, 100])],
        A::Mod => vec![r.range(1, 9)],
        A::Retain => {
            let m = r.range(2, 9);
            vec![m, r.range(0, m - 1)]
        }
        A::Drain => {
            let (x, y) = range(r, len);
            vec![x, y, r.below(4) as i64, r.below(4) as i64]
        }
        A::List => {
            let top = if r.chance(1, 4) { 14 } else { 5 };
            let n = r.below(top);
            (0..n).flat_map(|_| [k(r), v(r)]).collect()
        }
        A::List4 => (0..4).flat_map(|_| [k(r), v(r)]).collect(),
        A::Range => {
            let (x, y) = range(r, len);
            vec![x, y]
        }
        A::Range3 => {
            let (x, y) = range(r, len);
            vec![x, y, r.below(6) as i64]
        }
        A::Kind5 => vec![r.below(5) as i64],
        A::Script => script_args(r, len),
    }
}

fn flat<S>(m: &M<S>) -> Vec<i64> {
    m.iter().flat_map(|(k, v)| [k.id(), v.0]).collect()
}

pub fn observe<S: Build>(st: &St<S>, u: &Universe, lookups: bool) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut e = Ctx::default();
        let mut l = vec![];
        if lookups {
            for k in 1..=u.n() {
                let key = u.key(k);
                let i = st.a.get_index_of(&key, &mut e, &mut ());
                l.push(match i {
                    Ok(Some(i)) => i as i64 + 1,
                    Ok(None) => 0,
                    Err(_) => -1,
                });
            }
        }
        assert_eq!(st.a.len(), st.a.iter().count());
        format!(
            "{{\"a\":{},\"b\":{},\"l\":{},\"n\":{}}}",
            ints(&flat(&st.a)),
            ints(&flat(&st.b)),
            ints(&l),
            LIVE.with(|l| l.get())
        )
    }));
    r.unwrap_or_else(|_| "{\"a\":[-99],\"b\":[],\"l\":[],\"n\":-1}".to_string())
}

pub fn run_op<S: Build>(st: &mut St<S>, op: &Op, u: &Universe, e: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| exec(st, op, u, e))) {
        Ok(Ok(v)) => ("ok", v),
        Ok(Err(CODE)) => ("err", vec![]),
        Ok(Err(c)) => ("err", vec![c]),
        Err(_) => ("panic", vec![]),
    }
}

/// Executes one random history and writes it.
fn history<S: Build>(profile: &str, r: &mut Rng, len: usize, out: &mut dyn Write) {
    LIVE.with(|l| l.set(0));
    let nk = *r.pick(&[3usize, 6, 10, 14, 14, 24, 40, 60]);
    let u = Universe::random(r, nk, profile == "M02");
    let mut st: St<S> = St { a: M::<S>::default(), b: M::<S>::default() };
    let w: Vec<u32> = OPS
        .iter()
        .map(|(n, _)| {
            if !S::FULL && (*n == "eq" || *n == "from_ary") {
                0
            } else if profile == "M03" {
                weight("M01", n)
            } else {
                weight(profile, n)
            }
        })
        .collect();
    let mut phase = 1;
    let mut left = 0;
    // some histories start from a large or roomy map
    let mut prefix: Vec<Op> = vec![];
    if r.chance(1, 3) {
        prefix.push(("with_capacity", args(r, A::Cap, nk as i64, 0)));
    }
    if r.chance(1, 2) {
        let mut ks: Vec<i64> = (1..=nk as i64).collect();
        for i in (1..nk).rev() {
            ks.swap(i, r.below(i as u64 + 1) as usize);
        }
        ks.truncate(nk - r.below(nk as u64 / 3 + 1) as usize);
        prefix.push(("extend", ks.iter().flat_map(|k| [*k, r.range(1, 50)]).collect()));
    }
    prefix.reverse();
    let mut window = 0; // operations left in the open traversal window
    write!(out, "{{\"u\":{},\"ev\":[", u.json()).unwrap();
    for step in 0..len {
        if left == 0 {
            phase = *r.pick(&[1, 1, 0, -1, -1]);
            left = 4 + r.below(nk as u64 + 4);
        }
        left -= 1;
        let mut op: Op = prefix.pop().unwrap_or(("", vec![]));
        if op.0.is_empty() && profile == "M03" {
            if window == 0 && st.a.len() > 1 && r.chance(1, 4) {
                window = 3 + r.below(st.a.len() as u64 + 6);
            }
            if window > 0 {
                window -= 1;
                let n = st.a.len();
                let i = index(r, n);
                let live = st.a.get_index(i as usize).map(|(k, _)| k.id()).unwrap_or(0);
                op = if window == 0 {
                    ("compact", vec![])
                } else {
                    match r.below(12) {
                        0..=2 => ("tombstone_remove", vec![r.range(1, nk as i64)]),
                        3 | 4 if live != 0 => ("tombstone_remove", vec![live]),
                        5 if live != 0 || i >= n as i64 => ("tombstone_index", vec![i]),
                        6 | 7 => ("get_full", vec![r.range(1, nk as i64)]),
                        8 => ("contains", vec![r.range(1, nk as i64)]),
                        9 => ("get_index", vec![i]),
                        10 => ("get_mut", vec![r.range(1, nk as i64), r.range(1, 50)]),
                        // the window's contract bars new keys: only overwrite
                        _ if live != 0 => ("insert", vec![live, r.range(1, 50)]),
                        _ => ("len", vec![]),
                    }
                };
            }
        }
        if op.0.is_empty() {
            let sorted = st.a.keys().map(|k| k.0.cls).collect::<Vec<_>>().is_sorted();
            let w2: Vec<u32> = OPS
                .iter()
                .zip(&w)
                .map(|((n, _), w)| {
                    if needs_sorted(n) && !sorted {
                        return 0;
                    }
                    let w = if needs_sorted(n) { w * 3 } else { *w };
                    match effect(n) * phase {
                        1 => w * 3,
                        -1 => w.div_ceil(3),
                        _ => w,
                    }
                })
                .collect();
            let (n, a) = OPS[r.weighted(&w2)];
            op = (n, args(r, a, nk as i64, st.a.len()));
        }
        let mut e = Ctx::default();
        let mut f = "[]".to_string();
        if profile == "M02" && r.chance(1, 2) {
            e.kind = 1 + r.chance(2, 3) as u8;
            // name objects that matter: the operand, stored keys, random ones
            let cnt = 1 + r.below(3);
            for _ in 0..cnt {
                let id = match r.below(3) {
                    0 if !st.a.is_empty() => {
                        st.a.get_index(r.below(st.a.len() as u64) as usize).unwrap().0.id()
                    }
                    1 if !op.1.is_empty() => op.1[0].clamp(1, nk as i64),
                    _ => r.range(1, nk as i64),
                };
                e.ids.push(id);
            }
            f = format!("[\"{}\",{}]", if e.kind == 1 { "hash" } else { "eql" }, ints(&e.ids));
        }
        about_to(|| format!("{} step {} {} faults {}", u.json(), step, op_json(&op), f));
        let res = run_op(&mut st, &op, &u, &mut e);
        let look = nk <= 24 || step % 4 == 3 || step + 1 == len;
        if step > 0 {
            out.write_all(b",").unwrap();
        }
        write!(
            out,
            "{{\"o\":{},\"f\":{},\"r\":{},\"s\":{}}}",
            op_json(&op),
            f,
            res_json(&res),
            observe(&st, &u, look)
        )
        .unwrap();
    }
    out.write_all(b"]}\n").unwrap();
    drop(st);
    let live = LIVE.with(|l| l.get());
    if live != 0 {
        // one more history whose only event reports the leak
        writeln!(
            out,
            "{{\"u\":{},\"ev\":[{{\"o\":[\"len\",[]],\"f\":[],\"r\":[\"ok\",[0,1]],\"s\":{{\"a\":[],\"b\":[],\"l\":[],\"n\":{}}}}}]}}",
            u.json(),
            live
        )
        .unwrap();
    }
}

pub fn gen(profile: &str, seed: u64, n: u64, len: usize, out: &mut dyn Write) {
    for t in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t));
        let full = match profile {
            "M07" => true,
            "M02" => false,
            _ => r.chance(1, 8),
        };
        if full {
            history::<RandomState>(profile, &mut r, len, out);
        } else {
            history::<IdBuild>(profile, &mut r, len, out);
        }
    }
}

/// Replays operation paths (`op;op;...` per line) over a fixed universe and
/// prints result and observation of the last operation of each line.
pub fn replay(c: Vec<i64>, h: Vec<i64>, digest: Vec<u64>, input: &str, out: &mut dyn Write) {
    let u = Universe { c, h, digest };
    let names = op_names();
    for line in input.lines() {
        LIVE.with(|l| l.set(0));
        about_to(|| line.to_string());
        let mut st: St<IdBuild> = St { a: Default::default(), b: Default::default() };
        let mut res: Res = ("ok", vec![]);
        for s in line.split(';') {
            let op = common::parse_op(s, &names);
            res = run_op(&mut st, &op, &u, &mut Ctx::default());
        }
        writeln!(out, "{{\"r\":{},\"s\":{}}}", res_json(&res), observe(&st, &u, true)).unwrap();
    }
}
