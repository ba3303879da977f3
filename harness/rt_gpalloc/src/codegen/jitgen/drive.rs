use super::SlotId;
use super::gp_alloc::*;
use crate::bytecodegen::BinOpK;
use crate::codegen::GP;
use common::*;
use std::io::Write;

const KINDS: [BinOpK; 4] = [BinOpK::Add, BinOpK::Sub, BinOpK::Mul, BinOpK::BitXor];
fn kind(k: BinOpK) -> i64 {
    KINDS.iter().position(|x| *x == k).map_or(-1, |x| x as i64)
}
fn reg(r: GP) -> i64 {
    GP_ALLOC_SET.iter().position(|x| *x == r).map_or(-1, |x| x as i64) + 1
}

/// program: [kind, dst, lhs, rhs, next_sp] *
fn run(prog: &[[i64; 5]]) -> String {
    let insts: Vec<BinOpInst> = prog
        .iter()
        .map(|p| BinOpInst {
            kind: KINDS[p[0] as usize],
            dst: SlotId(p[1] as u16),
            lhs: SlotId(p[2] as u16),
            rhs: SlotId(p[3] as u16),
            next_sp: SlotId(p[4] as u16),
        })
        .collect();
    about_to(|| format!("allocate_run {prog:?}"));
    let r = std::panic::catch_unwind(|| allocate_run(&insts));
    let p: Vec<String> = prog.iter().map(|x| ints(x)).collect();
    let (tag, acts) = match r {
        Err(_) => ("panic", vec![]),
        Ok(a) => (
            "ok",
            a.iter()
                .map(|x| {
                    ints(&match *x {
                        GpAction::Load { slot, reg: r, guard } => vec![0, slot.0 as i64, reg(r), guard as i64],
                        GpAction::BinOp { kind: k, dst, lhs, rhs } => vec![1, kind(k), reg(dst), reg(lhs), reg(rhs)],
                        GpAction::Spill { reg: r, slot } => vec![2, slot.0 as i64, reg(r)],
                    })
                })
                .collect(),
        ),
    };
    format!("{{\"o\":[\"run\",[{}]],\"r\":[\"{tag}\",[{}]]}}", p.join(","), acts.join(","))
}

/// live[s]: the slot may be read (never popped, or defined since)
fn program(g: &mut Rng, slots: i64, len: i64) -> Vec<[i64; 5]> {
    let mut live = vec![true; slots as usize + 1];
    let mut out = vec![];
    let keep = g.chance(1, 3);
    for _ in 0..len {
        let can: Vec<i64> = (1..=slots).filter(|s| live[*s as usize]).collect();
        if can.is_empty() {
            break;
        }
        let (l, r) = (*g.pick(&can), *g.pick(&can));
        let d = g.range(1, slots);
        let sp = if keep {
            slots + 1
        } else if g.chance(1, 8) {
            g.range(1, slots + 1)
        } else {
            g.range(d + 1, slots + 1)
        };
        out.push([g.below(4) as i64, d, l, r, sp]);
        live[d as usize] = true;
        for s in sp..=slots {
            live[s as usize] = false;
        }
        if d >= sp {
            live[d as usize] = false;
        }
    }
    out
}

fn pairs(v: Vec<(GP, SlotId)>) -> Vec<i64> {
    v.iter().flat_map(|(r, s)| [reg(*r), s.0 as i64]).collect()
}

fn file_op(f: &mut GpRegFile, op: &Op) -> Res {
    let x = &op.1;
    let rg = |i: i64| GP_ALLOC_SET[i as usize - 1];
    let sl = |i: i64| SlotId(i as u16);
    let opt = |o: Option<GP>| o.map_or(vec![0], |r| vec![reg(r)]);
    match op.0 {
        "alloc" => {
            let pinned: Vec<GP> = x.iter().map(|i| rg(*i)).collect();
            let (r, s) = f.alloc_reg(&pinned);
            let mut v = vec![reg(r)];
            v.extend(pairs(s.into_iter().collect()));
            ("ok", v)
        }
        "bind" => {
            f.bind(rg(x[0]), sl(x[1]), x[2] == 1);
            ("ok", vec![])
        }
        "sync" => ("ok", opt(f.sync(sl(x[0])))),
        "pop" => {
            f.free_above_sp(sl(x[0]));
            ("ok", vec![])
        }
        "drop" => {
            f.invalidate(sl(x[0]));
            ("ok", vec![])
        }
        "flush" => ("ok", pairs(f.take_dirty_spills())),
        _ => unreachable!(),
    }
}
/// everything the register file says about itself
fn look(f: &GpRegFile, slots: i64) -> String {
    let of: Vec<i64> = (1..=slots).map(|s| f.reg_of(SlotId(s as u16)).map_or(0, reg)).collect();
    let dirty: Vec<i64> = (1..=slots).map(|s| f.dirty_reg_of(SlotId(s as u16)).map_or(0, reg)).collect();
    let free: Vec<i64> = GP_ALLOC_SET.iter().map(|r| f.is_free(*r) as i64).collect();
    format!(
        "[{},{},{},{},{}]",
        ints(&of),
        ints(&dirty),
        ints(&free),
        ints(&pairs(f.dirty_residents())),
        f.is_empty() as i64
    )
}

pub fn main() {
    let args = Args::new();
    quiet_panics();
    crash_report();
    watchdog(30);
    let mut out = args.out();
    let seed = args.num("seed", 1);
    let n = args.num("n", 100);
    match args.mode() {
        // every program of two instructions over --slots slots
        "small" => {
            let s = args.num("slots", 3) as i64;
            let mut one = vec![];
            for d in 1..=s {
                for l in 1..=s {
                    for r in 1..=s {
                        for sp in 1..=s + 1 {
                            one.push([0, d, l, r, sp]);
                        }
                    }
                }
            }
            for a in &one {
                let mut ev = vec![run(&[*a])];
                let dead = |x: i64| x >= a[4];
                for b in &one {
                    if !dead(b[2]) && !dead(b[3]) {
                        ev.push(run(&[*a, [1, b[1], b[2], b[3], b[4]]]));
                    }
                }
                writeln!(out, "{{\"u\":{s},\"g\":{},\"ev\":[{}]}}", GP_ALLOC_SET.len(), ev.join(",")).unwrap();
            }
        }
        "gen" => {
            for i in 0..n {
                let mut g = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                let s = g.range(3, 9);
                let ev: Vec<String> = (0..20)
                    .map(|_| {
                        let len = g.range(1, 14);
                        run(&program(&mut g, s, len))
                    })
                    .collect();
                writeln!(out, "{{\"u\":{s},\"g\":{},\"ev\":[{}]}}", GP_ALLOC_SET.len(), ev.join(",")).unwrap();
            }
        }
        "file" => {
            for i in 0..n {
                let mut g = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                let s = g.range(3, 8);
                let k = GP_ALLOC_SET.len() as i64;
                let mut f = GpRegFile::new();
                let mut got: Option<i64> = None; // a register handed out and not yet bound
                let mut ev = vec![];
                for _ in 0..50 {
                    let op: Op = match got.take() {
                        Some(r) if g.chance(9, 10) => ("bind", vec![r, g.range(1, s), g.below(2) as i64]),
                        _ => match g.below(12) {
                            0..7 => {
                                let mut p: Vec<i64> = vec![];
                                for _ in 0..g.below(3) {
                                    p.push(g.range(1, k));
                                }
                                ("alloc", p)
                            }
                            7 => ("sync", vec![g.range(1, s)]),
                            8 => ("pop", vec![g.range(2, s + 1)]),
                            9 => ("drop", vec![g.range(1, s)]),
                            10 if g.chance(1, 3) => ("flush", vec![]),
                            _ => ("bind", vec![g.range(1, k), g.range(1, s), g.below(2) as i64]),
                        },
                    };
                    about_to(|| op_json(&op));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| file_op(&mut f, &op)));
                    let r = r.unwrap_or(("panic", vec![]));
                    if op.0 == "alloc" && r.0 == "ok" {
                        got = Some(r.1[0]);
                    }
                    ev.push(format!("{{\"o\":{},\"r\":{},\"s\":{}}}", op_json(&op), res_json(&r), look(&f, s)));
                    if r.0 == "panic" {
                        break;
                    }
                }
                writeln!(out, "{{\"u\":{s},\"g\":{k},\"ev\":[{}]}}", ev.join(",")).unwrap();
            }
        }
        m => panic!("unknown mode {m}"),
    }
}
