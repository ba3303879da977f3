//! Runs histories of allocations, reference stores and collections on the
//! runtime's allocator and records what it released and what it says about
//! itself.  An object of the history is a group of `size` cells linked in a
//! ring, so that all its cells live and die together.
#![feature(coverage_attribute)]
#![allow(dead_code, unexpected_cfgs, static_mut_refs)]
#[path = "/repo/monoruby/src/alloc.rs"]
pub mod alloc;
#[path = "/repo/monoruby/src/poll_flag.rs"]
pub mod poll_flag;
mod rvalue;
pub use rvalue::RValue;
pub mod value {
    pub mod rvalue {
        pub use crate::rvalue::RValue;
    }
}
#[derive(Clone, Copy)]
pub struct Value(u64);
impl Value {
    pub fn is_packed_value(&self) -> bool {
        self.0 & 7 != 0
    }
    pub fn id(&self) -> u64 {
        self.0
    }
}

use alloc::{Allocator, GC, GCRoot};
use common::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;

const ROOTS: usize = 6;
struct Roots([*mut RValue; ROOTS]);
impl GC<RValue> for Roots {
    fn mark(&self, a: &mut Allocator<RValue>) {
        for r in self.0.iter().filter(|r| !r.is_null()) {
            unsafe { (**r).mark(a) };
        }
    }
}
impl GCRoot<RValue> for Roots {
    #[cfg(feature = "gc-debug")]
    fn startup_flag(&self) -> bool {
        false
    }
}

struct Node {
    cells: Vec<*mut RValue>,
    left: usize, // cells not yet released
}

struct Heap {
    a: Allocator<RValue>,
    roots: Roots,
    nodes: BTreeMap<u32, Node>, // with cells not yet released
    owner: HashMap<usize, (u32, u32)>,
    seen: HashSet<usize>,
    pages: HashSet<usize>,
    next: u32,
    dead: bool, // a panic escaped from the collector
}

impl Heap {
    fn new() -> Self {
        Heap {
            a: Allocator::new(),
            roots: Roots([std::ptr::null_mut(); ROOTS]),
            nodes: BTreeMap::new(),
            owner: HashMap::new(),
            seen: HashSet::new(),
            pages: HashSet::new(),
            next: 1,
            dead: false,
        }
    }
    /// k groups of n cells each, allocated alternately
    fn alloc(&mut self, k: u32, n: u32, promo: bool) -> Vec<i64> {
        let first = self.next;
        self.next += k;
        let (mut recycled, mut stolen) = (0i64, 0i64);
        for g in 0..k {
            self.nodes.insert(first + g, Node { cells: vec![], left: n as usize });
        }
        for m in 0..n {
            for g in 0..k {
                let p = self.a.alloc(RValue::new(first + g, m, promo));
                let ad = p as usize;
                self.pages.insert(ad & !((1 << 18) - 1));
                if !self.seen.insert(ad) {
                    recycled += 1;
                }
                if self.owner.insert(ad, (first + g, m)).is_some() {
                    stolen += 1;
                }
                self.nodes.get_mut(&(first + g)).unwrap().cells.push(p);
            }
        }
        if n > 1 {
            for g in 0..k {
                let c = &self.nodes[&(first + g)].cells;
                for m in 0..c.len() {
                    let (p, q) = (c[m], c[(m + 1) % c.len()]);
                    unsafe { (*p).kids[0] = q };
                }
            }
        }
        vec![first as i64, recycled, stolen]
    }
    fn cell(&self, node: i64, member: i64) -> *mut RValue {
        if node == 0 {
            return std::ptr::null_mut();
        }
        self.nodes[&(node as u32)].cells[member as usize]
    }
    fn damaged(&self) -> Vec<i64> {
        let mut out = vec![];
        for (id, n) in &self.nodes {
            let bad = n.cells.iter().enumerate().any(|(m, p)| {
                self.owner.get(&(*p as usize)) == Some(&(*id, m as u32)) && !unsafe { (**p).intact(*id, m as u32) }
            });
            if bad {
                out.push(*id as i64);
            }
        }
        out
    }
    fn old(&self) -> Vec<i64> {
        let mut out = vec![];
        for (id, n) in &self.nodes {
            let k = n.cells.iter().filter(|p| self.a.is_old(unsafe { &***p })).count();
            if k > 0 {
                out.push(*id as i64);
                out.push(k as i64);
            }
        }
        out
    }
    fn figures(&self) -> Vec<i64> {
        let a = &self.a;
        [
            a.total_allocated(),
            a.total_freed(),
            a.page_count(),
            a.empty_page_count(),
            a.available_slots(),
            a.allocatable_slots(),
            a.free_count(),
            a.live_count(),
            a.old_count(),
            a.minor_gc_count(),
            a.major_gc_count(),
            a.total_allocated_pages(),
            a.total_freed_pages(),
        ]
        .iter()
        .map(|x| *x as i64)
        .collect()
    }
    fn collect(&mut self, major: bool) -> Res {
        rvalue::RELEASED.with(|r| r.borrow_mut().clear());
        let (m0, j0) = (self.a.minor_gc_count(), self.a.major_gc_count());
        if major {
            alloc::request_gc(true);
        }
        let (a, roots) = (&mut self.a, &self.roots);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.gc(roots)));
        if r.is_err() {
            self.dead = true;
            return ("panic", vec![]);
        }
        let rel = rvalue::RELEASED.with(|r| std::mem::take(&mut *r.borrow_mut()));
        let mut per: BTreeMap<u32, i64> = BTreeMap::new();
        for (n, m) in rel {
            *per.entry(n).or_default() += 1;
            if let Some(x) = self.nodes.get_mut(&n) {
                x.left = x.left.saturating_sub(1);
                if let Some(p) = x.cells.get(m as usize) {
                    let ad = *p as usize;
                    if self.owner.get(&ad) == Some(&(n, m)) {
                        self.owner.remove(&ad);
                    }
                }
            }
        }
        let gone: Vec<u32> = self.nodes.iter().filter(|(_, x)| x.left == 0).map(|(i, _)| *i).collect();
        for g in gone {
            self.nodes.remove(&g);
        }
        let (dm, dj) = (self.a.minor_gc_count() - m0, self.a.major_gc_count() - j0);
        let mut out = vec![dm as i64, dj as i64];
        for (n, k) in per {
            out.push(n as i64);
            out.push(k);
        }
        ("ok", out)
    }
    fn apply(&mut self, op: &Op) -> Res {
        let x = &op.1;
        // an object the history still uses is gone
        let used: &[usize] = match op.0 {
            "set" => &[0, 3],
            "root" => &[1],
            _ => &[],
        };
        if used.iter().any(|i| x[*i] != 0 && !self.nodes.contains_key(&(x[*i] as u32))) {
            self.dead = true;
            return ("gone", vec![]);
        }
        match op.0 {
            "new" => ("ok", self.alloc(x[0] as u32, x[1] as u32, x[2] == 1)),
            // set [a, member, slot, b, member of b]
            "set" => {
                let (p, q) = (self.cell(x[0], x[1]), self.cell(x[3], x[4]));
                unsafe {
                    (*p).kids[x[2] as usize] = q;
                    (*p).write_barrier(q, &mut self.a);
                }
                ("ok", vec![])
            }
            // root [slot, b, member]
            "root" => {
                self.roots.0[x[0] as usize - 1] = self.cell(x[1], x[2]);
                ("ok", vec![])
            }
            "gc" => self.collect(false),
            "full" => self.collect(true),
            // off [1]: collections are refused
            "off" => {
                self.a.gc_enabled = x[0] == 0;
                ("ok", vec![])
            }
            _ => unreachable!(),
        }
    }
    fn finish(self) {
        unsafe extern "C" {
            fn madvise(p: *mut u8, n: usize, advice: i32) -> i32;
        }
        for p in &self.pages {
            unsafe { madvise(*p as *mut u8, 1 << 18, 4) };
        }
    }
}

/// What the generator remembers: the reference graph it built, so that it
/// only stores references a program could still hold.
struct Gen {
    rng: Rng,
    size: BTreeMap<i64, i64>,
    refs: BTreeMap<(i64, i64, i64), i64>,
    roots: [i64; ROOTS],
    hand: Vec<i64>, // just allocated, not yet rooted
    next: i64,
    profile: String,
    big: bool,
}

impl Gen {
    fn reachable(&self) -> Vec<i64> {
        let mut out: Vec<i64> = self.roots.iter().copied().filter(|x| *x > 0).collect();
        out.sort();
        out.dedup();
        let mut i = 0;
        while i < out.len() {
            let n = out[i];
            for (_, b) in self.refs.range((n, 0, 0)..(n + 1, 0, 0)) {
                if !out.contains(b) {
                    out.push(*b);
                }
            }
            i += 1;
        }
        out
    }
    fn op(&mut self) -> Op {
        let reach = self.reachable();
        let mut all = reach.clone();
        all.extend(self.hand.iter().filter(|h| !reach.contains(h)));
        let w: &[u32] = match self.profile.as_str() {
            "G02" => &[18, 14, 10, 3, 8, 9, 1],
            "G03" => &[14, 20, 8, 4, 22, 3, 1],
            _ => &[14, 22, 9, 5, 16, 5, 1],
        };
        if !self.hand.is_empty() && self.rng.chance(2, 3) {
            let b = self.hand.swap_remove(0);
            let mb = self.rng.below(self.size[&b] as u64) as i64;
            if reach.is_empty() || self.rng.chance(1, 4) {
                let r = self.rng.below(ROOTS as u64) as usize;
                self.roots[r] = b;
                return ("root", vec![r as i64 + 1, b, mb]);
            }
            let a = *self.rng.pick(&reach);
            let m = self.rng.below(self.size[&a] as u64) as i64;
            let s = self.rng.range(1, 2);
            self.refs.insert((a, m, s), b);
            return ("set", vec![a, m, s, b, mb]);
        }
        loop {
            match self.rng.weighted(w) {
                0 => {
                    let (k, n) = if self.big && self.rng.chance(1, 3) {
                        *self.rng.pick(&[(1, 4032), (1, 3000), (2, 2016), (3, 1700), (1, 8100), (1, 500), (2, 700), (1, 63), (1, 64), (4, 1008)])
                    } else {
                        *self.rng.pick(&[(1, 1), (1, 1), (1, 1), (1, 2), (2, 1), (3, 2), (1, 40), (1, 70)])
                    };
                    let promo = !self.rng.chance(1, 6);
                    self.hand.clear();
                    for g in 0..k {
                        self.size.insert(self.next + g, n);
                        self.hand.push(self.next + g);
                    }
                    self.next += k;
                    return ("new", vec![k, n, promo as i64]);
                }
                1 if !all.is_empty() => {
                    let a = *self.rng.pick(&all);
                    let b = if !self.hand.is_empty() && self.rng.chance(1, 2) {
                        *self.rng.pick(&self.hand)
                    } else {
                        *self.rng.pick(&all)
                    };
                    let m = self.rng.below(self.size[&a] as u64) as i64;
                    let s = self.rng.range(1, 2);
                    self.refs.insert((a, m, s), b);
                    let mb = self.rng.below(self.size[&b] as u64) as i64;
                    return ("set", vec![a, m, s, b, mb]);
                }
                2 if !all.is_empty() => {
                    let b = *self.rng.pick(&all);
                    let r = self.rng.below(ROOTS as u64) as usize;
                    self.roots[r] = b;
                    let mb = self.rng.below(self.size[&b] as u64) as i64;
                    return ("root", vec![r as i64 + 1, b, mb]);
                }
                // forget a reference
                3 => {
                    let held: Vec<_> = self.refs.keys().copied().filter(|(a, ..)| all.contains(a)).collect();
                    if !held.is_empty() && self.rng.chance(1, 2) {
                        let (a, m, s) = *self.rng.pick(&held);
                        self.refs.remove(&(a, m, s));
                        return ("set", vec![a, m, s, 0, 0]);
                    }
                    let r = self.rng.below(ROOTS as u64) as usize;
                    if self.roots[r] != 0 {
                        self.roots[r] = 0;
                        return ("root", vec![r as i64 + 1, 0, 0]);
                    }
                }
                4 => {
                    self.hand.clear();
                    return ("gc", vec![]);
                }
                5 => {
                    self.hand.clear();
                    return ("full", vec![]);
                }
                6 => return ("off", vec![self.rng.below(2) as i64]),
                _ => {}
            }
        }
    }
}

fn event(h: &mut Heap, op: &Op) -> String {
    about_to(|| op_json(op));
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h.apply(op))) {
        Ok(r) => r,
        Err(_) => {
            h.dead = true;
            ("panic", vec![])
        }
    };
    let (d, o) = if h.dead { (vec![], vec![]) } else { (h.damaged(), h.old()) };
    format!(
        "{{\"o\":{},\"r\":{},\"d\":{},\"k\":{},\"f\":{},\"m\":{}}}",
        op_json(op),
        res_json(&r),
        ints(&d),
        ints(&o),
        ints(&h.figures()),
        h.a.remembered_count()
    )
}

fn main() {
    let args = Args::new();
    quiet_panics();
    crash_report();
    watchdog(60);
    let mut out = args.out();
    match args.mode() {
        "gen" => {
            let profile = args.get("profile").unwrap_or("G01").to_string();
            let seed = args.num("seed", 1);
            let len = args.num("len", 50);
            for i in 0..args.num("n", 10) {
                let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                let big = rng.chance(1, if profile == "G02" { 2 } else { 4 });
                let mut g = Gen {
                    rng,
                    size: BTreeMap::new(),
                    refs: BTreeMap::new(),
                    roots: [0; ROOTS],
                    hand: vec![],
                    next: 1,
                    profile: profile.clone(),
                    big,
                };
                let mut h = Heap::new();
                let mut ev = vec![];
                for _ in 0..len {
                    let op = g.op();
                    ev.push(event(&mut h, &op));
                    if h.dead {
                        break;
                    }
                }
                if !h.dead {
                    for op in [("off", vec![0]), ("full", vec![]), ("new", vec![1, 5, 1])] {
                        ev.push(event(&mut h, &op));
                        if h.dead {
                            break;
                        }
                    }
                }
                writeln!(out, "{{\"f0\":{},\"ev\":[{}]}}", ints(&Heap::new0_figures()), ev.join(",")).unwrap();
                h.finish();
            }
        }
        // one history per line: name,int,int;name,...
        "walk" => {
            let text = std::fs::read_to_string(args.get("in").unwrap()).unwrap();
            for l in text.lines() {
                let mut h = Heap::new();
                let mut ev = vec![];
                for o in l.split(';') {
                    let op = parse_op(&o.replace(',', " "), &["new", "set", "root", "gc", "full", "off"]);
                    ev.push(event(&mut h, &op));
                    if h.dead {
                        break;
                    }
                }
                writeln!(out, "{{\"f0\":{},\"ev\":[{}]}}", ints(&Heap::new0_figures()), ev.join(",")).unwrap();
                h.finish();
            }
        }
        m => panic!("unknown mode {m}"),
    }
}

impl Heap {
    /// the figures of a heap on which nothing happened
    fn new0_figures() -> Vec<i64> {
        thread_local! {
            static F: Vec<i64> = Heap::new().figures();
        }
        F.with(|f| f.clone())
    }
}
