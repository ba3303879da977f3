//! Drives the runtime's instance-variable table. Every block of memory is
//! filled with junk when handed out and when given back, always moves on
//! reallocation, and lies between guard words.
#![allow(dead_code)]
pub mod rvalue {
    pub type Value = std::num::NonZeroU64;
    #[path = "/repo/monoruby/src/value/rvalue/ivar_table.rs"]
    pub mod ivar_table;
}
use common::*;
use rvalue::Value;
use rvalue::ivar_table::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

static BROKEN: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
const PAD: usize = 64;
struct Junk;
unsafe impl GlobalAlloc for Junk {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 2 * PAD, 16));
            std::ptr::write_bytes(p, 0xc3, l.size() + 2 * PAD);
            (p as *mut usize).write(l.size());
            (p as *mut usize).add(1).write(l.align());
            std::ptr::write_bytes(p.add(PAD), 0xa5, l.size());
            BLOCKS.fetch_add(1, SeqCst);
            p.add(PAD)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            let q = p.sub(PAD);
            // the layout must be the one the block was requested with
            if (q as *mut usize).read() != l.size() || (q as *mut usize).add(1).read() != l.align() {
                BROKEN.fetch_add(1, SeqCst);
            }
            let size = (q as *mut usize).read().min(1 << 40);
            for i in 16..PAD {
                if *q.add(i) != 0xc3 || *q.add(PAD + size + i - 16) != 0xc3 {
                    BROKEN.fetch_add(1, SeqCst);
                    break;
                }
            }
            std::ptr::write_bytes(p, 0x5a, size);
            BLOCKS.fetch_sub(1, SeqCst);
            System.dealloc(q, Layout::from_size_align_unchecked(size + 2 * PAD, 16));
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            q
        }
    }
}
#[global_allocator]
static A: Junk = Junk;

type Table = MonoVec<Option<Value>>;
fn word(t: &Table, at: usize) -> usize {
    unsafe { ((t as *const Table as *const u8).add(at) as *const usize).read() }
}
fn val(x: i64) -> Option<Value> {
    Value::new(x as u64)
}

struct W {
    t: BTreeMap<i64, Table>,
    next: i64,
}
impl W {
    fn apply(&mut self, op: &Op) -> Res {
        let x = &op.1;
        about_to(|| op_json(op));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Res {
            match op.0 {
                "new" => {
                    self.t.insert(x[0], Table::with_capacity(x[1] as usize));
                    ("ok", vec![])
                }
                "push" => {
                    self.t.get_mut(&x[0]).unwrap().push(val(x[1]));
                    ("ok", vec![])
                }
                "resize" => {
                    self.t.get_mut(&x[0]).unwrap().resize(x[1] as usize);
                    ("ok", vec![])
                }
                // after a reservation the promised pushes may not move the table
                "reserve" => {
                    self.t.get_mut(&x[0]).unwrap().reserve(x[1] as usize);
                    ("ok", vec![])
                }
                "clone" => {
                    let c = self.t[&x[0]].clone();
                    self.t.insert(x[1], c);
                    ("ok", vec![])
                }
                "write" => {
                    self.t.get_mut(&x[0]).unwrap()[x[1] as usize - 1] = val(x[2]);
                    ("ok", vec![])
                }
                "read" => ("ok", vec![self.t[&x[0]].get(x[1] as usize - 1).map_or(-1, |v| v.map_or(0, |v| v.get() as i64))]),
                "drop" => {
                    self.t.remove(&x[0]);
                    ("ok", vec![])
                }
                _ => unreachable!(),
            }
        }));
        r.unwrap_or(("panic", vec![]))
    }
    /// contents of every table, the raw fields, damage so far
    fn look(&self) -> String {
        let mut c = vec![];
        for (h, t) in &self.t {
            let mut v = vec![*h, t.len() as i64, word(t, MONOVEC_LEN) as i64, word(t, MONOVEC_CAPA) as i64, (word(t, MONOVEC_PTR) == t.as_ptr() as usize) as i64];
            v.extend(t.iter().map(|x| x.map_or(0, |v| if v.get() < 1 << 40 { v.get() as i64 } else { -2 })));
            c.push(ints(&v));
        }
        format!("[[{}],{}]", c.join(","), BROKEN.load(SeqCst))
    }
    fn ev(&mut self, op: Op) -> String {
        let r = self.apply(&op);
        format!("{{\"o\":{},\"r\":{},\"s\":{}}}", op_json(&op), res_json(&r), self.look())
    }
}

fn main() {
    let args = Args::new();
    quiet_panics();
    crash_report();
    watchdog(30);
    let mut out = args.out();
    let seed = args.num("seed", 1);
    let n = args.num("n", 100);
    let mut line = |ev: &[String]| writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
    match args.mode() {
        // every history of --len operations on one table and its copy
        "small" => {
            let len = args.num("len", 3) as u32;
            let ops: Vec<Op> = vec![
                ("push", vec![1, 7]),
                ("push", vec![2, 8]),
                ("push", vec![1, 0]),
                ("resize", vec![1, 1]),
                ("resize", vec![1, 3]),
                ("resize", vec![2, 5]),
                ("reserve", vec![1, 2]),
                ("reserve", vec![2, 0]),
                ("clone", vec![1, 2]),
                ("clone", vec![2, 1]),
                ("write", vec![1, 1, 9]),
                ("write", vec![2, 2, 9]),
                ("drop", vec![1]),
            ];
            let k = ops.len() as u64;
            for cap in [0, 1, 2, 3] {
                for x in 0..k.pow(len) {
                    let mut w = W { t: BTreeMap::new(), next: 3 };
                    let mut ev = vec![w.ev(("new", vec![1, cap]))];
                    for i in 0..len {
                        let op = ops[(x / k.pow(i) % k) as usize].clone();
                        let Some(t) = w.t.get(&op.1[0]) else { break };
                        if op.0 == "write" && t.len() < op.1[1] as usize {
                            break;
                        }
                        ev.push(w.ev(op));
                    }
                    line(&ev);
                }
            }
        }
        "gen" => {
            for i in 0..n {
                let mut g = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                let mut w = W { t: BTreeMap::new(), next: 1 };
                let big = if g.chance(1, 6) { 80 } else { 9 };
                let mut ev = vec![];
                let mut v = 0;
                for _ in 0..40 {
                    let hs: Vec<i64> = w.t.keys().cloned().collect();
                    v += 1;
                    let op: Op = if hs.is_empty() || (hs.len() < 4 && g.chance(1, 12)) {
                        w.next += 1;
                        ("new", vec![w.next, g.range(0, big)])
                    } else {
                        let h = *g.pick(&hs);
                        let len = w.t[&h].len() as i64;
                        match g.below(12) {
                            0..3 => ("push", vec![h, if g.chance(1, 5) { 0 } else { v }]),
                            3 | 4 => ("resize", vec![h, g.range(0, len + big)]),
                            5 => ("reserve", vec![h, g.range(0, big)]),
                            6 if hs.len() < 4 => {
                                w.next += 1;
                                ("clone", vec![h, w.next])
                            }
                            7 => ("read", vec![h, g.range(1, len + 2)]),
                            8 if g.chance(1, 4) => ("drop", vec![h]),
                            _ if len > 0 => ("write", vec![h, g.range(1, len), if g.chance(1, 5) { 0 } else { v }]),
                            _ => ("push", vec![h, v]),
                        }
                    };
                    ev.push(w.ev(op));
                }
                line(&ev);
            }
        }
        _ => panic!("mode"),
    }
}
