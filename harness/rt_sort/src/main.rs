//! Runs the runtime's sort with chosen comparators and records, for every
//! comparison, what is compared and which elements are at that moment in
//! neither the array nor the scratch space.
#![allow(dead_code, unused_imports)]
pub mod op {
    //! the part of the runtime that sort.rs names
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    use std::cell::RefCell;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Value(pub u64);
    /// elements are key << 32 | id; other kinds of value for cmpint
    pub const NIL: u64 = 1 << 63;
    pub const FIX: u64 = 1 << 62;
    pub const BIG: u64 = 1 << 61;
    pub const OBJ: u64 = 1 << 60;
    #[derive(Debug)]
    pub struct MonorubyErr(pub String);
    impl MonorubyErr {
        pub fn argumenterr(s: String) -> Self {
            MonorubyErr(s)
        }
    }
    pub struct Store;
    pub struct Globals {
        pub store: Store,
    }
    pub struct Executor;
    pub struct IdentId;
    impl IdentId {
        pub const _CMP: IdentId = IdentId;
    }
    pub enum RV {
        BigInt(num::BigInt),
        Float(f64),
        Nil,
        Other,
    }
    pub mod num {
        pub struct BigInt(pub i64);
        impl BigInt {
            pub fn sign(&self) -> bigint::Sign {
                match self.0 {
                    0 => bigint::Sign::NoSign,
                    x if x < 0 => bigint::Sign::Minus,
                    _ => bigint::Sign::Plus,
                }
            }
        }
        pub mod bigint {
            pub enum Sign {
                Minus,
                NoSign,
                Plus,
            }
        }
    }
    impl Value {
        pub fn integer(i: i64) -> Value {
            Value(FIX | (i as u64 & 0xffff_ffff))
        }
        pub fn low(self) -> i64 {
            self.0 as u32 as i32 as i64
        }
        pub fn is_nil(self) -> bool {
            self.0 == NIL
        }
        pub fn try_fixnum(self) -> Option<i64> {
            (self.0 & FIX != 0).then(|| self.low())
        }
        pub fn unpack(self) -> RV {
            if self.0 & BIG != 0 { RV::BigInt(num::BigInt(self.low())) } else { RV::Other }
        }
        pub fn get_real_class_name(self, _: &Store) -> String {
            "C".to_string()
        }
        pub fn inspect(self, _: &Store) -> String {
            "v".to_string()
        }
        pub fn is_packed_value(self) -> bool {
            false
        }
        pub fn coerce_to_int_i64(self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
            self.try_fixnum().ok_or(MonorubyErr("coerce".to_string()))
        }
    }
    type Cmp = dyn FnMut(Value, Value) -> std::result::Result<std::cmp::Ordering, MonorubyErr>;
    thread_local! {
        pub static CMP: RefCell<Option<Box<Cmp>>> = const { RefCell::new(None) };
        pub static ASKED: RefCell<Vec<i64>> = const { RefCell::new(vec![]) };
    }
    impl Executor {
        pub fn compare_values(_: &mut Executor, _: &mut Globals, a: Value, b: Value) -> Result<std::cmp::Ordering> {
            CMP.with(|c| (c.borrow_mut().as_mut().unwrap())(a, b))
        }
        /// an object's own `<=>`: its low half says what it answers
        pub fn invoke_method_inner(
            &mut self,
            _: &mut Globals,
            _: IdentId,
            recv: Value,
            args: &[Value],
            _: Option<()>,
            _: Option<()>,
        ) -> Result<Value> {
            ASKED.with(|a| a.borrow_mut().extend(args.iter().map(|x| x.low())));
            match recv.low() {
                77 => Ok(Value(NIL)),
                78 => Err(MonorubyErr("own".to_string())),
                x => Ok(Value::integer(x)),
            }
        }
    }
    #[path = "/repo/monoruby/src/executor/op/sort.rs"]
    pub mod sort;
}
use common::*;
use op::sort::*;
use op::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::io::Write;
use std::rc::Rc;

const PAD: u64 = 0xdead_0000_0000_0000 >> 8;
const BLANK: u64 = 0xb1a2_0000_0000_0000 >> 8;
fn elem(key: i64, id: usize) -> Value {
    Value((key as u64) << 32 | id as u64)
}
fn key(v: Value) -> i64 {
    (v.0 >> 32) as i64
}
fn id(v: Value) -> i64 {
    v.0 as u32 as i64
}

#[derive(Clone)]
struct Job {
    keys: Vec<i64>,
    /// 0: by key; 1: reversed key order; 2: arbitrary answers; 3: never equal
    mode: i64,
    /// comparison at which the comparator fails (0: never)
    fail: i64,
    salt: u64,
    /// through Executor::sort instead of sort_by
    exec: bool,
}

/// {"o":["sort",[mode,fail,keys..]],"r":[tag,[positions..]],"c":[[a,b,ans,hidden..]..],"w":[scratch words written outside]}
fn run(j: &Job) -> String {
    let n = j.keys.len();
    let mut v: Vec<Value> = j.keys.iter().enumerate().map(|(i, k)| elem(*k, i + 1)).collect();
    // the array, too, lies between guard words
    let mut arr = vec![Value(PAD); n + 8];
    arr[4..4 + n].copy_from_slice(&v);
    let want = merge_scratch_len(n);
    let mut scratch = vec![Value(PAD); want + 8];
    for x in &mut scratch[4..4 + want] {
        *x = Value(BLANK);
    }
    let ap = arr.as_mut_ptr();
    let sp = scratch.as_mut_ptr();
    let calls: Rc<RefCell<Vec<Vec<i64>>>> = Rc::default();
    let mut g = Rng::new(j.salt);
    let (c2, jj) = (calls.clone(), j.clone());
    let mut cmp = move |a: Value, b: Value| -> std::result::Result<Ordering, MonorubyErr> {
        let mut held = vec![false; n + 1];
        unsafe {
            for k in 0..n {
                let x = id(*ap.add(4 + k)) as usize;
                if x <= n {
                    held[x] = true;
                }
            }
            for k in 0..want {
                let x = *sp.add(4 + k);
                if x.0 != BLANK && id(x) as usize <= n {
                    held[id(x) as usize] = true;
                }
            }
        }
        let k = c2.borrow().len() as i64 + 1;
        let ans = if jj.fail == k {
            2
        } else {
            match jj.mode {
                0 => (key(a) - key(b)).signum(),
                1 => (key(b) - key(a)).signum(),
                2 => g.range(-1, 1),
                _ => {
                    if g.chance(1, 2) { -1 } else { 1 }
                }
            }
        };
        let mut call = vec![id(a), id(b), ans];
        call.extend((1..=n as i64).filter(|x| !held[*x as usize]));
        c2.borrow_mut().push(call);
        if c2.borrow().len() > 20_000 {
            eprintln!("HANG: sort keeps comparing: {jj_keys:?}", jj_keys = jj.keys);
            std::process::exit(99);
        }
        match ans {
            2 => Err(MonorubyErr(format!("planned {k}"))),
            x => Ok(x.cmp(&0)),
        }
    };
    about_to(|| format!("sort {:?} mode {} fail {} salt {}", j.keys, j.mode, j.fail, j.salt));
    let buf = if want == 0 && j.salt % 2 == 0 { std::ptr::null_mut() } else { unsafe { sp.add(4) } };
    let slice = unsafe { std::slice::from_raw_parts_mut(ap.add(4), n) };
    let r = if j.exec {
        CMP.with(|c| *c.borrow_mut() = Some(Box::new(cmp)));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Executor.sort(&mut Globals { store: Store }, slice, buf)
        }));
        CMP.with(|c| {
            if let Ok(mut x) = c.try_borrow_mut() {
                *x = None
            }
        });
        r
    } else {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sort_by(slice, buf, &mut cmp)))
    };
    v.copy_from_slice(unsafe { std::slice::from_raw_parts(ap.add(4), n) });
    let (tag, which) = match r {
        Err(_) => ("panic", 0),
        Ok(Ok(())) => ("ok", 0),
        Ok(Err(e)) => ("err", e.0.strip_prefix("planned ").and_then(|x| x.parse().ok()).unwrap_or(-1)),
    };
    // an element is its original one only if key and position agree
    let pos: Vec<i64> = v
        .iter()
        .map(|x| if (1..=n as i64).contains(&id(*x)) && key(*x) == j.keys[id(*x) as usize - 1] { id(*x) } else { -1 })
        .collect();
    let mut out = 0;
    for k in 0..4 {
        out += (arr[k].0 != PAD) as i64 + (arr[4 + n + k].0 != PAD) as i64;
        out += (scratch[k].0 != PAD) as i64 + (scratch[4 + want + k].0 != PAD) as i64;
    }
    let mut o = vec![j.mode, j.fail];
    o.extend(&j.keys);
    let c: Vec<String> = calls.borrow().iter().map(|x| ints(x)).collect();
    format!(
        "{{\"o\":[\"sort\",{}],\"r\":[\"{tag}\",{}],\"c\":[{}],\"w\":[{which},{out}]}}",
        ints(&o),
        ints(&pos),
        c.join(",")
    )
}

/// shapes that exercise runs, reversals, merges from either side, collapses
fn keys(g: &mut Rng, n: usize) -> Vec<i64> {
    let k = *g.pick(&[1, 2, 3, 5, 9, 30, 200]);
    let mut v: Vec<i64> = (0..n).map(|_| g.range(0, k)).collect();
    match g.below(7) {
        0 => {}
        1 => v.sort(),
        2 => {
            v.sort();
            v.reverse()
        }
        // a few runs, each up, down or level
        3..6 => {
            let mut i = 0;
            while i < n {
                let part = n as u64 / *g.pick(&[2, 3, 4, 6]);
                let m = (i + 1 + g.below(1 + part) as usize).min(n);
                match g.below(5) {
                    0..2 => v[i..m].sort(),
                    2..4 => {
                        v[i..m].sort();
                        v[i..m].reverse()
                    }
                    _ => {
                        let x = v[i];
                        v[i..m].fill(x)
                    }
                }
                i = m;
            }
        }
        // a sorted array with a few changes
        _ => {
            v.sort();
            for _ in 0..g.below(4) {
                if n > 0 {
                    let i = g.below(n as u64) as usize;
                    v[i] = g.range(0, k);
                }
            }
        }
    }
    v
}

fn main() {
    let args = Args::new();
    quiet_panics();
    crash_report();
    watchdog(30);
    let mut out = args.out();
    let seed = args.num("seed", 1);
    let n = args.num("n", 100);
    let mut line = |ev: &[String]| writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
    match args.mode() {
        // every array of up to --len keys out of --keys values, both entries;
        // for each, a failure at every comparison
        "small" => {
            let (len, k) = (args.num("len", 4) as u32, args.num("keys", 3));
            for l in 0..=len {
                for x in 0..k.pow(l) {
                    let ks: Vec<i64> = (0..l).map(|i| (x / k.pow(i) % k) as i64).collect();
                    let mut ev = vec![];
                    for exec in [false, true] {
                        let j = Job { keys: ks.clone(), mode: 0, fail: 0, salt: x, exec };
                        let a = run(&j);
                        let calls = a.split("\"c\":[").nth(1).unwrap().matches('[').count() - 1;
                        ev.push(a);
                        for f in 1..=calls {
                            ev.push(run(&Job { fail: f as i64, ..j.clone() }));
                        }
                        ev.push(run(&Job { mode: 2, ..j.clone() }));
                    }
                    line(&ev);
                }
            }
        }
        "gen" => {
            let max = args.num("len", 70);
            for i in 0..n {
                let mut g = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                let l = match g.below(8) {
                    0 => g.range(0, 20),
                    1 => *g.pick(&[20, 21, 22, 23, 30, 31, 40, 41]),
                    _ => g.range(21, max as i64),
                } as usize;
                let ks = keys(&mut g, l);
                let mode = *g.pick(&[0, 0, 0, 1, 2, 3]);
                let exec = g.chance(1, 4);
                let salt = g.next() % 100_000;
                let j = Job { keys: ks, mode, fail: 0, salt, exec };
                let a = run(&j);
                let calls = a.split("\"c\":[").nth(1).unwrap().matches('[').count() as i64 - 1;
                let mut ev = vec![a];
                // fails somewhere; late failures meet the merges
                for _ in 0..2 {
                    if calls > 0 {
                        let f = if g.chance(1, 2) { g.range(1, calls) } else { g.range(calls * 2 / 3, calls).max(1) };
                        ev.push(run(&Job { fail: f, ..j.clone() }));
                    }
                }
                line(&ev);
            }
        }
        "cmpint" => {
            let mut ev = vec![];
            let small = [-2147483648i64, -77, -2, -1, 0, 1, 2, 76, 79, 2147483647];
            let all: Vec<(i64, i64)> = std::iter::once((0, 0))
                .chain([1, 2, 3].into_iter().flat_map(|k| small.iter().map(move |x| (k, *x))))
                .chain([(3, 77), (3, 78)])
                .collect();
            for (kind, x) in all {
                let tag = [NIL, FIX, BIG, OBJ][kind as usize];
                let val = if kind == 0 { Value(NIL) } else { Value(tag | (x as u32 as u64)) };
                ASKED.with(|a| a.borrow_mut().clear());
                let r = std::panic::catch_unwind(|| {
                    Executor.cmpint(&mut Globals { store: Store }, val, elem(1, 1), elem(2, 2))
                });
                let res: Res = match r {
                    Err(_) => ("panic", vec![]),
                    Ok(Ok(o)) => ("ok", vec![o as i64]),
                    Ok(Err(e)) => ("err", vec![if e.0 == "own" { 2 } else if e.0.contains("comparison of") { 1 } else { 0 }]),
                };
                let asked = ASKED.with(|a| a.borrow().clone());
                ev.push(format!(
                    "{{\"o\":[\"cmpint\",[{kind},{x}]],\"r\":{},\"c\":{},\"w\":[]}}",
                    res_json(&res),
                    ints(&asked)
                ));
            }
            line(&ev);
        }
        _ => panic!("mode"),
    }
}
