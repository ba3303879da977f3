//! Drives the runtime's class table: creates classes, modules, objects and
//! refinements, mixes modules in, defines methods, and records after every
//! step what the ancestor lists, lookups and reflection lists say.
#![feature(box_patterns)]
#![allow(dead_code, unused_imports, unexpected_cfgs, private_interfaces, improper_ctypes_definitions)]
pub use monoruby_attr::monoruby_object;
mod globals;
mod id_table;
mod shim;
mod value;
pub use globals::*;
pub use id_table::*;
pub use shim::*;
pub use value::*;

use common::{Args, Rng, about_to, crash_report, quiet_panics, watchdog};
use std::io::Write;

const NAMES: [&str; 3] = ["!=", "to_str", "=~"];
const VIS: [Visibility; 3] = [Visibility::Public, Visibility::Protected, Visibility::Private];
const PLAIN: usize = 8;
const PROCS: usize = 4;

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Anc,
    Met,
    List,
    Ref,
}

struct World {
    g: Globals,
    /// The n-th class or module of the history; 1 BasicObject, 2 Object, 3 Kernel.
    ids: Vec<ClassId>,
    objs: Vec<Value>,
    funcs: Vec<FuncId>,
    names: Vec<IdentId>,
    sets: Vec<RefinementSetId>,
    focus: Focus,
    ev: Vec<String>,
}

fn list(v: &[i64]) -> String {
    common::ints(v)
}
fn lists(v: &[Vec<i64>]) -> String {
    format!("[{}]", v.iter().map(|x| list(x)).collect::<Vec<_>>().join(","))
}

impl World {
    fn new(focus: Focus) -> Self {
        let (mut g, kernel) = Globals::boot();
        let names: Vec<_> = NAMES.iter().map(|n| IdentId::get_id(n)).collect();
        let mut funcs = vec![];
        for i in 0..PLAIN {
            funcs.push(g.store.functions.new_attr_reader(names[i % 3], names[0]));
        }
        // bodies of define_method, and the methods made of them
        let bodies: Vec<_> = (0..PROCS).map(|_| g.store.functions.new_attr_reader(names[0], names[0])).collect();
        for b in &bodies {
            funcs.push(g.store.functions.new_proc_method(Proc(*b)));
        }
        funcs.extend(bodies);
        g.store.set_default_neq(funcs[0]);
        World {
            g,
            ids: vec![BASIC_OBJECT_CLASS, OBJECT_CLASS, kernel.id()],
            objs: vec![],
            funcs,
            names,
            sets: vec![RefinementSetId::EMPTY],
            focus,
            ev: vec![],
        }
    }
    fn num(&self, c: ClassId) -> i64 {
        self.ids.iter().position(|x| *x == c).map_or(-(c.u32() as i64), |p| p as i64 + 1)
    }
    fn fnum(&self, f: FuncId) -> i64 {
        self.funcs.iter().position(|x| *x == f).map_or(0, |p| p as i64 + 1)
    }
    fn module(&self, x: i64) -> Module {
        self.g.get_module(self.ids[x as usize - 1])
    }
    fn add(&mut self, m: Module) -> i64 {
        self.ids.push(m.id());
        self.ids.len() as i64
    }
    fn known(&mut self, m: Module) -> i64 {
        match self.num(m.id()) {
            n if n > 0 => n,
            _ => self.add(m),
        }
    }
    fn mask(&self, v: Vec<Value>) -> i64 {
        self.names.iter().enumerate().filter(|(_, n)| v.contains(&Value::symbol(**n))).map(|(i, _)| 1 << i).sum()
    }
    fn entry(&self, e: Option<MethodTableEntry>) -> Vec<i64> {
        match e {
            None => vec![],
            Some(e) => vec![e.func_id().map_or(-1, |f| self.fnum(f)), e.visibility() as i64, self.num(e.owner())],
        }
    }

    fn dump(&self, set: usize) -> String {
        let s = &self.g.store;
        let mut out = vec![];
        if self.focus == Focus::Anc {
            let anc: Vec<_> =
                self.ids.iter().map(|c| s.ancestors(*c).iter().map(|m| self.num(m.id())).collect::<Vec<_>>()).collect();
            out.push(format!("\"anc\":{}", lists(&anc)));
            let kin: Vec<i64> = self
                .ids
                .iter()
                .map(|c| self.ids.iter().enumerate().filter(|(_, d)| s.class_in_ancestors(*c, **d)).map(|(i, _)| 1 << i).sum())
                .collect();
            out.push(format!("\"kin\":{}", list(&kin)));
            let subs: Vec<Vec<i64>> = self.ids[3..]
                .iter()
                .map(|c| s.get_direct_subclasses(*c).iter().map(|v| self.num(v.as_class().id())).collect())
                .collect();
            out.push(format!("\"subs\":{}", lists(&subs)));
        }
        if self.focus == Focus::Met || self.focus == Focus::Ref {
            let mut met = vec![];
            for c in &self.ids {
                for n in &self.names {
                    met.push(self.entry(s.check_method_for_class(*c, *n)));
                }
            }
            out.push(format!("\"met\":{}", lists(&met)));
            let find: Vec<i64> = self
                .objs
                .iter()
                .flat_map(|o| {
                    self.names.iter().map(|n| match s.find_method_for_object(*o, *n) {
                        Ok((f, ..)) => self.fnum(f),
                        Err(_) => 0,
                    })
                })
                .collect();
            out.push(format!("\"obj\":{}", list(&find)));
        }
        if self.focus == Focus::Met {
            let mut sup = vec![];
            for (x, c) in self.ids.iter().enumerate() {
                for (i, n) in self.names.iter().enumerate() {
                    for (j, f) in self.funcs.iter().enumerate() {
                        let occ = s.super_occurrences(*c, *f, *n);
                        if occ == 0 {
                            continue;
                        }
                        let mut row = vec![x as i64 + 1, i as i64 + 1, j as i64 + 1, occ as i64];
                        row.push(s.check_super(*c, *f, *n).map_or(0, |f| self.fnum(f)));
                        for k in 1..=occ {
                            row.push(s.check_super_at(*c, *f, *n, Some(k)).map_or(0, |f| self.fnum(f)));
                        }
                        sup.push(row);
                    }
                }
            }
            out.push(format!("\"sup\":{}", lists(&sup)));
            // what is remembered per class
            let version = Globals::class_version();
            let memo: Vec<Vec<i64>> = self
                .ids
                .iter()
                .map(|c| {
                    vec![
                        s.custom_neq(*c, version).and_then(|e| e.func_id()).map_or(0, |f| self.fnum(f)),
                        s.no_to_str(*c, version) as i64,
                        s.match_method(*c, version).map_or(0, |f| self.fnum(f)),
                    ]
                })
                .collect();
            out.push(format!("\"memo\":{}", lists(&memo)));
        }
        if self.focus == Focus::Ref {
            let mut met = vec![];
            for c in &self.ids {
                for n in &self.names {
                    met.push(self.entry(s.check_method_with_refinements(*c, *n, self.sets[set])));
                }
            }
            out.push(format!("\"set\":{},\"ref\":{}", set + 1, lists(&met)));
        }
        if self.focus == Focus::List {
            let mut rows = vec![];
            for c in &self.ids[3..] {
                let mut row = vec![
                    self.mask(s.get_method_names(*c)),
                    self.mask(s.get_public_method_names(*c)),
                    self.mask(s.get_private_method_names(*c)),
                    self.mask(s.get_protected_method_names(*c)),
                    self.mask(s.get_undefined_instance_methods(*c)),
                    self.mask(s.get_method_names_inherit(*c, false)),
                    self.mask(s.get_public_method_names_inherit(*c)),
                    self.mask(s.get_private_method_names_inherit(*c)),
                    self.mask(s.get_protected_method_names_inherit(*c)),
                    self.mask(s.get_public_method_names_direct(*c)),
                    self.mask(s.get_private_method_names_direct(*c)),
                    self.mask(s.get_protected_method_names_direct(*c)),
                    self.mask(s.get_private_method_names_inherit_incl_object(*c)),
                    self.mask(s.get_protected_method_names_inherit_incl_object(*c)),
                    self.mask(s.get_method_names_inherit(*c, true)),
                ];
                for n in &self.names {
                    row.push(s.method_defined(*c, *n, true).map_or(-1, |v| v as i64));
                    row.push(s.method_defined(*c, *n, false).map_or(-1, |v| v as i64));
                }
                rows.push(row);
            }
            out.push(format!("\"lst\":{}", lists(&rows)));
        }
        format!("{{{}}}", out.join(","))
    }

    fn step(&mut self, op: &str, a: &[i64], set: usize) {
        let o = format!(
            "[\"{op}\"{}]",
            a.iter().map(|x| format!(",{x}")).collect::<String>()
        );
        let shown = o.clone();
        about_to(|| shown);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let r = self.apply(op, a);
            (r, self.dump(set))
        }));
        self.ev.push(match r {
            Ok((r, d)) => format!("{{\"o\":{o},\"r\":{},\"d\":{d}}}", list(&r)),
            Err(_) => format!("{{\"o\":{o},\"r\":[-99],\"d\":{{\"panic\":1}}}}"),
        });
    }

    fn apply(&mut self, op: &str, a: &[i64]) -> Vec<i64> {
        let err = |r: Result<()>| vec![r.is_err() as i64];
        match op {
            "class" => {
                let sup = self.module(a[0]);
                let m = self.g.define_unnamed_class(Some(sup));
                vec![self.add(m)]
            }
            "module" => {
                let m = self.g.define_unnamed_module();
                vec![self.add(m)]
            }
            "obj" => {
                let c = self.ids[a[0] as usize - 1];
                self.objs.push(Value::object(c));
                vec![self.objs.len() as i64]
            }
            "sing" => {
                let m = self.g.get_singleton(self.objs[a[0] as usize - 1]).unwrap();
                vec![self.known(m)]
            }
            "include" => err(self.module(a[0]).include_module(self.module(a[1]))),
            "prepend" => {
                let (mut base, m) = (self.module(a[0]), self.module(a[1]));
                let r = base.prepend_module(m);
                if r.is_ok() {
                    self.g.store.propagate_prepend_to_subclasses(base.id(), m);
                }
                err(r)
            }
            "extend" => {
                let mut s = self.g.get_singleton(self.objs[a[0] as usize - 1]).unwrap();
                let r = s.include_module(self.module(a[1]));
                vec![self.known(s), r.is_err() as i64]
            }
            "dup" => {
                let m = self.g.duplicate_module(self.ids[a[0] as usize - 1]);
                vec![self.add(m)]
            }
            "clone" => {
                let o = self.objs[a[0] as usize - 1];
                let copy = Value::object(o.class());
                self.g.clone_singleton_class(o, copy).unwrap();
                self.objs.push(copy);
                let m = self.g.get_module(copy.class());
                let s = if m.is_singleton().is_some() { self.known(m) } else { 0 };
                vec![self.objs.len() as i64, s]
            }
            "def" => {
                let (c, n, f) = (self.ids[a[0] as usize - 1], self.names[a[1] as usize - 1], self.funcs[a[2] as usize - 1]);
                self.g.add_method(c, n, f, VIS[a[3] as usize]);
                vec![0]
            }
            "remove" => err(self.g.remove_method(self.ids[a[0] as usize - 1], self.names[a[1] as usize - 1])),
            "undef" => {
                self.g.add_empty_method(self.ids[a[0] as usize - 1], self.names[a[1] as usize - 1], Visibility::Undefined);
                vec![0]
            }
            "vis" => {
                let (c, n) = (self.ids[a[0] as usize - 1], self.names[a[1] as usize - 1]);
                err(self.g.change_method_visibility_for_class(c, &[n], VIS[a[2] as usize]))
            }
            "refine" => {
                let (owner, refined) = (self.ids[a[0] as usize - 1], self.ids[a[1] as usize - 1]);
                let m = self.g.define_unnamed_module();
                self.g.store[m.id()].set_refinement_of(refined, owner);
                self.g.store[owner].add_refinement(m.id());
                self.g.store.refinements_mut().activate();
                vec![self.add(m)]
            }
            "using" => {
                let added = self.g.refinements_of_module(self.ids[a[1] as usize - 1]);
                let base = self.sets[a[0] as usize - 1];
                let s = self.g.store.refinements_mut().activated(base, &added);
                match self.sets.iter().position(|x| *x == s) {
                    Some(p) => vec![p as i64 + 1],
                    None => {
                        self.sets.push(s);
                        vec![self.sets.len() as i64]
                    }
                }
            }
            _ => unreachable!(),
        }
    }

    fn undefined(&self, x: i64, n: i64) -> bool {
        self.g
            .own_method_entry(self.ids[x as usize - 1], self.names[n as usize - 1])
            .is_some_and(|e| e.visibility() == Visibility::Undefined)
    }
    fn is_module(&self, x: i64) -> bool {
        self.module(x).is_module()
    }
}

/// One history: a few classes and modules, then random steps.
fn history(rng: &mut Rng, focus: Focus, len: u64) -> Vec<String> {
    let mut w = World::new(focus);
    let cap = if focus == Focus::Anc { 16 } else { 12 };
    let mods = rng.range(2, 4);
    for _ in 0..mods {
        w.step("module", &[], 0);
    }
    let mut refs: Vec<i64> = vec![];
    for _ in 0..rng.range(1, 3) {
        let classes: Vec<i64> = (2..=w.ids.len() as i64).filter(|x| !w.is_module(*x)).collect();
        let sup = *rng.pick(&classes);
        w.step("class", &[sup], 0);
    }
    for _ in 0..len {
        let n = w.ids.len() as i64;
        let all: Vec<i64> = (1..=n).filter(|x| !refs.contains(x)).collect();
        let mine: Vec<i64> = all.iter().copied().filter(|x| *x > 3 || rng.chance(1, 4)).collect();
        let modules: Vec<i64> = all.iter().copied().filter(|x| w.is_module(*x) && (*x > 3 || rng.chance(1, 3))).collect();
        let classes: Vec<i64> =
            all.iter().copied().filter(|x| !w.is_module(*x) && *x >= 2 && w.module(*x).is_singleton().is_none()).collect();
        if mine.is_empty() || modules.is_empty() {
            continue;
        }
        let grow = if n < cap { 2 } else { 0 };
        let o = if w.objs.is_empty() { 0 } else { 1 };
        let m = if focus == Focus::Anc { 0 } else { 6 };
        let rf = if focus == Focus::Ref { 3 } else { 0 };
        let set = rng.below(w.sets.len() as u64) as usize;
        let name = rng.range(1, if focus == Focus::Ref { 2 } else { 3 });
        match rng.weighted(&[
            grow,
            grow,
            if w.objs.len() < 4 { 2 } else { 0 },
            o * grow / 2,
            7,
            7,
            o * grow / 2,
            grow,
            if w.objs.len() < 6 { o * grow } else { 0 },
            3 * m,
            m,
            m,
            2 * m,
            rf * grow,
            3 * rf,
        ]) {
            0 => w.step("class", &[*rng.pick(&classes)], set),
            1 => w.step("module", &[], set),
            2 => w.step("obj", &[*rng.pick(&classes)], set),
            3 => w.step("sing", &[rng.range(1, w.objs.len() as i64)], set),
            4 => w.step("include", &[*rng.pick(&mine), *rng.pick(&modules)], set),
            5 => w.step("prepend", &[*rng.pick(&mine), *rng.pick(&modules)], set),
            6 => w.step("extend", &[rng.range(1, w.objs.len() as i64), *rng.pick(&modules)], set),
            7 => {
                let x = *rng.pick(&mine);
                if x > 3 && w.module(x).is_singleton().is_none() {
                    w.step("dup", &[x], set)
                }
            }
            8 => w.step("clone", &[rng.range(1, w.objs.len() as i64)], set),
            9 => {
                let pool = if !refs.is_empty() && rng.chance(1, 2) { &refs } else { &mine };
                let f = rng.range(1, (PLAIN + PROCS) as i64);
                w.step("def", &[*rng.pick(pool), name, f, *rng.pick(&[0, 0, 1, 2])], set)
            }
            10 => {
                let x = *rng.pick(&mine);
                if !w.undefined(x, name) {
                    w.step("remove", &[x, name], set)
                }
            }
            11 => w.step("undef", &[*rng.pick(&mine), name], set),
            12 => w.step("vis", &[*rng.pick(&mine), name, rng.range(0, 2)], set),
            13 => {
                let owner = *rng.pick(&modules);
                let target = *rng.pick(&mine);
                let r = w.g.own_refinement_entries(w.ids[owner as usize - 1]);
                if owner > 3 && !r.iter().any(|e| e.0 == w.ids[target as usize - 1]) {
                    w.step("refine", &[owner, target], set);
                    refs.push(w.ids.len() as i64);
                }
            }
            _ => {
                if w.sets.len() < 8 {
                    let base = rng.range(1, w.sets.len() as i64);
                    w.step("using", &[base, *rng.pick(&modules)], set)
                }
            }
        }
    }
    w.ev
}

/// A panic outside the recorded steps (while the class table is set up or
/// asked for what to do next) makes a history of its own.
fn guarded(f: impl FnOnce() -> Vec<String>) -> Vec<String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .unwrap_or_else(|_| vec!["{\"o\":[\"module\"],\"r\":[-99],\"d\":{\"panic\":1}}".into()])
}

/// Every sequence of `len` mixings among three modules, a class, its
/// subclass and an object of it.
fn all(len: u32, part: u64, parts: u64, out: &mut dyn Write) {
    let mut ops: Vec<(&str, i64, i64)> = vec![];
    for (op, ts) in [("include", 4..=8i64), ("prepend", 4..=8)] {
        for x in ts {
            for m in 4..=6 {
                if x != m {
                    ops.push((op, x, m));
                }
            }
        }
    }
    let k = ops.len() as u64;
    for i in (part..k.pow(len)).step_by(parts as usize) {
        let ev = guarded(|| {
            let mut w = World::new(Focus::Anc);
            w.step("module", &[], 0);
            w.step("module", &[], 0);
            w.step("module", &[], 0);
            w.step("class", &[2], 0);
            w.step("class", &[7], 0);
            w.ev.clear();
            let mut j = i;
            for _ in 0..len {
                let (op, x, m) = ops[(j % k) as usize];
                j /= k;
                w.step(op, &[x, m], 0);
            }
            w.ev
        });
        writeln!(out, "{{\"pre\":1,\"ev\":[{}]}}", ev.join(",")).unwrap();
    }
}

fn main() {
    let args = Args::new();
    quiet_panics();
    crash_report();
    watchdog(600);
    let mut out = args.out();
    match args.mode() {
        "hist" => {
            let focus = match args.get("focus") {
                Some("met") => Focus::Met,
                Some("list") => Focus::List,
                Some("ref") => Focus::Ref,
                _ => Focus::Anc,
            };
            let seed = args.num("seed", 1);
            for i in 0..args.num("n", 10) {
                let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                let ev = guarded(|| history(&mut rng, focus, args.num("len", 30)));
                writeln!(out, "{{\"pre\":0,\"ev\":[{}]}}", ev.join(",")).unwrap();
            }
        }
        "all" => all(args.num("len", 3) as u32, args.num("part", 0), args.num("parts", 1), &mut *out),
        m => panic!("mode {m}"),
    }
}
