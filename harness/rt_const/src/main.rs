//! Drives the constant and class variable tables of the runtime and the
//! lookups of executor/constants.rs, and records after every step what all
//! classes say.
#![feature(box_patterns)]
#![allow(dead_code, unused_imports, unexpected_cfgs, private_interfaces, improper_ctypes_definitions)]
pub use monoruby_attr::monoruby_object;
mod executor;
mod globals;
mod id_table;
mod shim;
mod value;
pub use executor::*;
pub use globals::*;
pub use id_table::*;
pub use shim::*;
pub use value::*;

use common::{Args, Rng, about_to, crash_report, quiet_panics, watchdog};
use std::io::Write;
use std::path::PathBuf;

const STATES: [AutoloadState; 3] = [AutoloadState::Idle, AutoloadState::Loading, AutoloadState::Consumed];
const GIVEN: [&str; 3] = ["one", "two", "three"];
const PATHS: [&[&str]; 4] = [&["/nowhere/f1.rb"], &["/nowhere/f2.so"], &["/nowhere/f2", "/nowhere/g"], &["/nowhere/f1"]];

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Con,
    Var,
    Name,
}

struct World {
    g: Globals,
    vm: Executor,
    eval: FuncId,
    /// The n-th class or module of the history; 1 BasicObject, 2 Object, 3 Kernel.
    ids: Vec<ClassId>,
    objs: Vec<Value>,
    con: Vec<IdentId>,
    var: Vec<IdentId>,
    focus: Focus,
    ev: Vec<String>,
}

fn list(v: &[i64]) -> String {
    common::ints(v)
}
fn lists(v: &[Vec<i64>]) -> String {
    format!("[{}]", v.iter().map(|x| list(x)).collect::<Vec<_>>().join(","))
}
fn fix(v: Value) -> i64 {
    v.try_fixnum().unwrap_or(-7)
}

impl World {
    fn new(focus: Focus) -> Self {
        let (mut g, kernel) = Globals::boot();
        let source_info = std::rc::Rc::new(SourceInfo { path: "/nowhere/main".into() });
        let mut main = || g.store.new_main(ParseResult { node: Node, source_info: source_info.clone() }).unwrap();
        let (func, frame) = (main(), main());
        World {
            g,
            vm: Executor { func, frame, base: None, reading: None, log: vec![] },
            eval: frame,
            ids: vec![BASIC_OBJECT_CLASS, OBJECT_CLASS, kernel.id()],
            objs: vec![],
            con: ["Zebra", "Yak", "Xerus"].iter().map(|n| IdentId::get_id(n)).collect(),
            var: ["@@a", "@@b", "@@c"].iter().map(|n| IdentId::get_id(n)).collect(),
            focus,
            ev: vec![],
        }
    }
    fn num(&self, c: ClassId) -> i64 {
        self.ids.iter().position(|x| *x == c).map_or(-(c.u32() as i64), |p| p as i64 + 1)
    }
    fn module(&self, x: i64) -> Module {
        self.g.get_module(self.ids[x as usize - 1])
    }
    fn add(&mut self, m: Module) -> i64 {
        self.ids.push(m.id());
        self.ids.len() as i64
    }
    fn known(&mut self, m: Module) -> i64 {
        match self.num(m.id()) {
            n if n > 0 => n,
            _ => self.add(m),
        }
    }
    fn names(&self, of: &[IdentId], v: Vec<IdentId>) -> Vec<i64> {
        let mut r: Vec<i64> = v.iter().filter_map(|n| of.iter().position(|x| x == n)).map(|p| p as i64 + 1).collect();
        r.sort();
        r
    }

    fn dump(&mut self) -> String {
        let mut out = vec![];
        if self.focus == Focus::Name {
            return self.named();
        }
        if self.focus == Focus::Con {
            let (mut tab, mut own, mut inh, mut probe) = (vec![], vec![], vec![], vec![]);
            for c in &self.ids[1..] {
                for n in &self.con[..2] {
                    let s = &self.g.store;
                    tab.push(match s.get_constant(*c, *n) {
                        None => vec![],
                        Some(e) => {
                            let mut row = match &e.kind {
                                ConstStateKind::Loaded(v) => vec![0, fix(*v), 0],
                                ConstStateKind::Autoload(a) => vec![
                                    1,
                                    FEATURES.iter().position(|f| PathBuf::from(f) == a.feature).map_or(-1, |p| p as i64 + 1),
                                    STATES.iter().position(|s| *s == a.state).unwrap() as i64,
                                ],
                            };
                            row.extend([e.is_private() as i64, e.is_deprecated() as i64]);
                            row
                        }
                    });
                    let m = self.g.get_module(*c);
                    probe.push(vec![
                        s.get_constant_noautoload(*c, *n).map_or(0, fix),
                        Executor::probe_constant_at(&self.g, *c, *n) as i64,
                        Executor::probe_constant_superclass(&self.g, m, *n) as i64,
                        Executor::probe_constant_superclass_qualified(&self.g, m, *n) as i64,
                        Executor::probe_constant_superclass_with_class(&self.g, m, *n).map_or(0, |c| self.num(c)),
                    ]);
                }
                own.push(self.names(&self.con, self.g.store.get_constant_names(*c)));
                inh.push(self.names(&self.con, self.g.store.get_constant_names_inherit(self.g.get_module(*c))));
            }
            let files: Vec<Vec<i64>> = PATHS
                .iter()
                .map(|p| {
                    let p: Vec<PathBuf> = p.iter().map(|x| x.into()).collect();
                    let mut r: Vec<i64> = self
                        .g
                        .store
                        .find_autoload_entries_for_paths(&p)
                        .iter()
                        .filter_map(|(c, n)| {
                            let n = self.con.iter().position(|x| x == n)? as i64 + 1;
                            (self.num(*c) > 0).then(|| self.num(*c) * 10 + n)
                        })
                        .collect();
                    r.sort();
                    r
                })
                .collect();
            out.push(format!(
                "\"tab\":{},\"own\":{},\"inh\":{},\"probe\":{},\"files\":{}",
                lists(&tab),
                lists(&own),
                lists(&inh),
                lists(&probe),
                lists(&files)
            ));
        } else {
            let (mut get, mut find, mut names) = (vec![], vec![], vec![]);
            for c in self.ids.clone().iter().skip(3) {
                for n in &self.var {
                    let m = self.g.get_module(*c);
                    let meta = if m.is_singleton().is_some() { m } else { self.g.get_singleton(m.as_val()).unwrap() };
                    for m in [m, meta] {
                        get.push(match self.g.get_class_variable(m, *n) {
                            Ok((m, v)) => vec![self.num(m.id()), fix(v)],
                            Err(e) if matches!(e.kind, MonorubyErrKind::Name(..)) => vec![],
                            Err(_) => vec![-1],
                        });
                    }
                    find.push(match self.g.search_class_variables_superclass(m, *n) {
                        Some((m, v)) => vec![self.num(m.id()), fix(v)],
                        None => vec![],
                    });
                }
                let v = self.g.store.get_class_variable_names(*c);
                names.push(v.iter().filter_map(|n| self.var.iter().position(|x| x == n)).map(|p| p as i64 + 1).collect());
            }
            out.push(format!("\"get\":{},\"find\":{},\"vars\":{}", lists(&get), lists(&find), lists(&names)));
        }
        format!("{{{}}}", out.join(","))
    }

    /// The parts of a name: constants 1 to 3, given names 11 to 13, nameless
    /// modules from 100 on.
    fn parts(&self, s: &str) -> Vec<i64> {
        s.split("::")
            .map(|p| {
                if let Some(k) = self.con.iter().position(|n| n.to_string() == p) {
                    return k as i64 + 1;
                }
                if let Some(k) = GIVEN.iter().position(|n| *n == p) {
                    return k as i64 + 11;
                }
                let hex = p.rsplit_once("0x").map_or("", |x| x.1.trim_end_matches('>'));
                let id = u64::from_str_radix(hex, 16).unwrap_or(0);
                self.ids.iter().position(|c| self.g.get_module(*c).as_val().id() == id).map_or(99, |k| k as i64 + 101)
            })
            .collect()
    }
    /// What Module#name says, and whether the name is there to stay.
    fn named(&mut self) -> String {
        let (mut names, mut stay) = (vec![], vec![]);
        for c in self.ids.clone().into_iter().skip(3) {
            let s = &mut self.g.store;
            stay.push(s[c].is_name_permanent() as i64);
            names.push(if s[c].get_name().is_none() || s.is_name_erased(c) {
                vec![]
            } else {
                let text = match s[c].cached_name_value() {
                    Some(v) => v.try_symbol().unwrap().to_string(),
                    None => {
                        let text = s.get_class_name(c);
                        s[c].set_cached_name_value(Value::string_from_str(&text));
                        text
                    }
                };
                self.parts(&text)
            });
        }
        format!("{{\"names\":{},\"stay\":{}}}", lists(&names), list(&stay))
    }

    fn step(&mut self, op: &str, a: &[i64]) {
        let o = format!("[\"{op}\"{}]", a.iter().map(|x| format!(",{x}")).collect::<String>());
        let shown = o.clone();
        about_to(|| shown);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let r = self.apply(op, a);
            (r, self.dump())
        }));
        self.ev.push(match r {
            Ok((r, d)) => format!("{{\"o\":{o},\"r\":{},\"d\":{d}}}", list(&r)),
            Err(_) => format!("{{\"o\":{o},\"r\":[-99],\"d\":{{\"panic\":1}}}}"),
        });
    }

    /// The number of scopes of evaluated code (-1 if there is none), the class
    /// it is evaluated for, its scopes, and those of the method.
    fn scopes(&mut self, a: &[i64]) {
        let k = a[0].max(0) as usize;
        let class = |x: &i64| self.ids[*x as usize - 1];
        let (inner, outer): (Vec<_>, Vec<_>) = (a[2..2 + k].iter().map(class).collect(), a[2 + k..].iter().map(class).collect());
        let of = if a[1] == 0 { None } else { Some(class(&a[1])) };
        let method = self.vm.method_func_id();
        self.vm.frame = if a[0] < 0 { method } else { self.eval };
        let iseq = self.g.store[self.eval].as_iseq();
        self.g.store[iseq].lexical_context = inner;
        self.g.store[iseq].instance_eval_class = of;
        let iseq = self.g.store[method].as_iseq();
        self.g.store[iseq].lexical_context = outer;
    }
    fn apply(&mut self, op: &str, a: &[i64]) -> Vec<i64> {
        let err = |r: Result<()>| vec![r.is_err() as i64];
        let c = a.first().and_then(|x| self.ids.get(*x as usize - 1)).copied().unwrap_or(OBJECT_CLASS);
        let con = a.get(1).and_then(|n| self.con.get(*n as usize - 1)).copied();
        let var = a.get(1).and_then(|n| self.var.get(*n as usize - 1)).copied();
        match op {
            "class" => {
                let sup = self.module(a[0]);
                let m = self.g.define_unnamed_class(Some(sup));
                vec![self.add(m)]
            }
            "module" => {
                let m = self.g.define_unnamed_module();
                vec![self.add(m)]
            }
            "obj" => {
                self.objs.push(Value::object(c));
                vec![self.objs.len() as i64]
            }
            "sing" => {
                let m = self.g.get_singleton(self.objs[a[0] as usize - 1]).unwrap();
                vec![self.known(m)]
            }
            "include" => err(self.module(a[0]).include_module(self.module(a[1]))),
            "prepend" => {
                let (mut base, m) = (self.module(a[0]), self.module(a[1]));
                let r = base.prepend_module(m);
                if r.is_ok() {
                    self.g.store.propagate_prepend_to_subclasses(base.id(), m);
                }
                err(r)
            }
            "dup" => {
                let m = self.g.duplicate_module(c);
                vec![self.add(m)]
            }
            "set" => {
                self.g.set_constant(c, con.unwrap(), Value::fixnum(a[2]));
                vec![0]
            }
            "auto" => {
                self.g.store.set_constant_autoload(c, con.unwrap(), FEATURES[a[2] as usize - 1].into());
                vec![0]
            }
            "state" => {
                self.g.store.set_autoload_state(c, con.unwrap(), STATES[a[2] as usize]);
                vec![0]
            }
            "unset" => match self.g.remove_constant(c, con.unwrap()) {
                None => vec![0],
                Some(v) => vec![1, v.try_fixnum().unwrap_or(0)],
            },
            "mark" => {
                let e = &mut self.g.store[c];
                match a[2] {
                    0 => e.set_constant_public(con.unwrap()),
                    1 => e.set_constant_private(con.unwrap()),
                    _ => e.set_constant_deprecated(con.unwrap()),
                }
                vec![0]
            }
            // start, name, kind, three plans, place, value, scopes
            "read" => {
                self.scopes(&a[8..]);
                let r = Reading {
                    kind: a[2],
                    start: c,
                    name: con.unwrap(),
                    plan: [a[3], a[4], a[5]],
                    place: self.ids[a[6] as usize - 1],
                    value: a[7],
                };
                self.vm.reading = Some(r.clone());
                self.vm.log.clear();
                let v = match self.vm.read(&mut self.g, &r) {
                    Ok(v) => v.map_or(0, fix),
                    Err(_) => -1,
                };
                let mut out = vec![v];
                for x in std::mem::take(&mut self.vm.log) {
                    out.push(match x {
                        1000.. => 1000 + self.num(ClassId::new(x as u32 - 1000)),
                        _ => x,
                    });
                }
                out
            }
            // start, name, 0 as it is, 1 below Object, 2 below start, scopes
            "defined" => {
                self.scopes(&a[3..]);
                self.vm.base = (a[2] == 2).then(|| self.module(a[0]).as_val());
                let slot = self.vm.base.map(|_| SlotId(0));
                let site = self.g.store.new_constsite(slot, con.unwrap(), vec![], a[2] == 1);
                vec![self.vm.probe_constant(&mut self.g, site) as i64]
            }
            "bind" => {
                let m = self.module(a[2]).as_val();
                self.g.set_constant(c, con.unwrap(), m);
                vec![0]
            }
            "temp" => {
                if self.g.store[c].is_name_permanent() {
                    return vec![1];
                }
                self.g.store[c].set_temporary_name(GIVEN[a[1] as usize - 1].into());
                self.g.store.invalidate_descendant_name_caches(c);
                vec![0]
            }
            "cvset" => {
                let m = self.module(a[0]).as_val();
                let c = if a[3] == 1 && m.as_class().is_singleton().is_none() { self.g.get_singleton(m).unwrap().id() } else { c };
                self.g.set_class_variable(c, var.unwrap(), Value::fixnum(a[2]));
                vec![0]
            }
            "cvunset" => match self.g.store[c].remove_cvar(var.unwrap()) {
                None => vec![0],
                Some(v) => vec![1, fix(v)],
            },
            _ => unreachable!(),
        }
    }
    fn is_module(&self, x: i64) -> bool {
        self.module(x).is_module()
    }
}

/// One history of modules that are constants of each other.
fn naming(rng: &mut Rng, len: u64) -> Vec<String> {
    let mut w = World::new(Focus::Name);
    for _ in 0..rng.range(2, 5) {
        w.step("module", &[]);
    }
    let top = rng.range(0, 12) as u32;
    for _ in 0..len {
        let n = w.ids.len() as i64;
        let (x, y, name) = (rng.range(4, n), rng.range(4, n), rng.range(1, 3));
        match rng.weighted(&[if n < 9 { 2 } else { 0 }, if n < 9 { 1 } else { 0 }, 20, top, 3, 3, if n < 9 { 1 } else { 0 }]) {
            0 => w.step("module", &[]),
            1 => w.step("class", &[2]),
            2 => w.step("bind", &[x, name, y]),
            3 => w.step("bind", &[2, name, y]),
            4 => w.step("unset", &[x, name]),
            5 => w.step("temp", &[x, name]),
            _ => w.step("dup", &[x]),
        }
    }
    w.ev
}

fn scopes(rng: &mut Rng, mine: &[i64]) -> Vec<i64> {
    let k = if rng.chance(1, 2) { -1 } else { rng.range(0, 2) };
    let mut a = vec![k, if k >= 0 && rng.chance(1, 2) { *rng.pick(mine) } else { 0 }];
    // Object may be one of them
    let mut one = || if rng.chance(1, 8) { 2 } else { *rng.pick(mine) };
    a.extend((0..k.max(0)).map(|_| one()));
    let n = one() % 4;
    a.extend((0..n).map(|_| one()));
    a
}

/// One history: a few classes and modules, then random steps.
fn history(rng: &mut Rng, focus: Focus, len: u64) -> Vec<String> {
    let vars = focus == Focus::Var;
    let mut w = World::new(focus);
    for _ in 0..rng.range(1, 3) {
        w.step("module", &[]);
    }
    for _ in 0..rng.range(2, 3) {
        let classes: Vec<i64> = (2..=w.ids.len() as i64).filter(|x| !w.is_module(*x)).collect();
        let sup = *rng.pick(&classes);
        w.step("class", &[sup]);
    }
    let mut v = 0;
    for _ in 0..len {
        let n = w.ids.len() as i64;
        let mine: Vec<i64> = (4..=n).collect();
        let modules: Vec<i64> = mine.iter().copied().filter(|x| w.is_module(*x)).collect();
        let classes: Vec<i64> =
            (2..=n).filter(|x| !w.is_module(*x) && w.module(*x).is_singleton().is_none()).collect();
        let grow = if n < 9 { 1 } else { 0 };
        let o = if w.objs.is_empty() { 0 } else { 1 };
        let (k, cv) = if vars { (0, 1) } else { (1, 0) };
        // constants of Object and Kernel, too
        let any = if !vars && rng.chance(1, 5) { *rng.pick(&[2, 2, 3]) } else { *rng.pick(&mine) };
        let name = rng.range(1, if vars { 3 } else { 2 });
        v += 1;
        match rng.weighted(&[
            grow,
            grow,
            if w.objs.len() < 2 { 1 } else { 0 },
            o * grow,
            4,
            4,
            grow,
            8 * k,
            8 * k,
            2 * k,
            3 * k,
            5 * k,
            16 * k,
            12 * cv,
            3 * cv,
            4 * k,
        ]) {
            0 => w.step("class", &[*rng.pick(&classes)]),
            1 => w.step("module", &[]),
            2 => w.step("obj", &[*rng.pick(&classes)]),
            3 => w.step("sing", &[rng.range(1, w.objs.len() as i64)]),
            4 => w.step("include", &[*rng.pick(&mine), *rng.pick(&modules)]),
            5 => w.step("prepend", &[*rng.pick(&mine), *rng.pick(&modules)]),
            6 => {
                let x = *rng.pick(&mine);
                if w.module(x).is_singleton().is_none() {
                    w.step("dup", &[x])
                }
            }
            7 => w.step("set", &[any, name, v]),
            8 => w.step("auto", &[any, name, rng.range(1, 3)]),
            9 => w.step("state", &[any, name, rng.range(0, 2)]),
            10 => w.step("unset", &[any, name]),
            11 => w.step("mark", &[any, name, rng.range(0, 2)]),
            12 => {
                let mut a = vec![any, name, rng.range(0, 3)];
                a.extend((0..3).map(|_| *rng.pick(&[0, 1, 1, 2, 2, 3])));
                a.push(if rng.chance(1, 2) { any } else { *rng.pick(&mine) });
                a.push(v);
                a.extend(scopes(rng, &mine));
                w.step("read", &a)
            }
            15 => {
                let mut a = vec![any, name, *rng.pick(&[0, 0, 0, 1, 2])];
                a.extend(scopes(rng, &mine));
                w.step("defined", &a)
            }
            13 => w.step("cvset", &[any, name, v, rng.chance(1, 5) as i64]),
            14 => w.step("cvunset", &[any, name]),
            _ => unreachable!(),
        }
    }
    w.ev
}

/// A panic outside the recorded steps (while the class table is set up or
/// asked for what to do next) makes a history of its own.
fn guarded(f: impl FnOnce() -> Vec<String>) -> Vec<String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .unwrap_or_else(|_| vec!["{\"o\":[\"module\"],\"r\":[-99],\"d\":{\"panic\":1}}".into()])
}

fn main() {
    let args = Args::new();
    quiet_panics();
    crash_report();
    watchdog(20);
    let mut out = args.out();
    let mode = args.mode().to_string();
    let seed = args.num("seed", 1);
    for i in 0..args.num("n", 10) {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
        let ev = guarded(|| match &*mode {
            "names" => naming(&mut rng, args.num("len", 30)),
            "vars" => history(&mut rng, Focus::Var, args.num("len", 30)),
            _ => history(&mut rng, Focus::Con, args.num("len", 30)),
        });
        writeln!(out, "{{\"ev\":[{}]}}", ev.join(",")).unwrap();
    }
}
