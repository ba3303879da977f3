"""T01-T04, N01: green threads and background calls (scheduler.rs,
value/rvalue/thread.rs, native_pool.rs)."""
import os

SPEC_CFG = """SPECIFICATION Spec
CONSTANTS N = 3
 F = 1
 Calls = %d
 Menu = "%s"
INVARIANTS Queued Current NotMissed Truthful Pending
PROPERTY Lasted
CHECK_DEADLOCK FALSE
"""
POOL_CFG = """SPECIFICATION Spec
CONSTANTS Waiters = {%s}
 Calls = %d
 HandOn = TRUE
 Interrupts = %d
INVARIANTS Clean Announced
PROPERTY Served
CHECK_DEADLOCK FALSE
"""


def gather(r, cmds, outs, name, spec, label):
    r.run_all(cmds)
    lines = {}
    for t in outs:
        with open(t) as f:
            for l in f:
                lines[l] = 1
    t = os.path.join(r.work, name + ".ndjson")
    with open(t, "w") as f:
        f.writelines(lines)
    r.validate(spec, t, label=label)
    return len(lines)


def small(r, b, menu, calls, spawn):
    """Every program of that many calls from the menu."""
    outs, cmds = [], []
    for k in range(8):
        t = os.path.join(r.work, "small-%d-%d-%d.ndjson" % (menu, spawn, k))
        outs.append(t)
        cmds.append([b, "small", "--menu", str(menu), "--calls", str(calls), "--spawn", str(spawn), "--shards", "8", "--shard", str(k), "--out", t])
    n = gather(r, cmds, outs, "small-%d-%d" % (menu, spawn), "Trace_Sched", "all programs, menu %d" % menu)
    r.parts.append({"all programs of calls from menu": menu, "calls": calls, "threads besides main": spawn, "histories": n})


def drawn(r, b, profile, n):
    outs, cmds = [], []
    for k in range(8):
        t = os.path.join(r.work, "drawn-%d-%d.ndjson" % (profile, k))
        outs.append(t)
        cmds.append([b, "drawn", "--profile", str(profile), "--seed", str(r.seed * 1000 + k), "--n", str(n // 8), "--out", t])
    m = gather(r, cmds, outs, "drawn-%d" % profile, "Trace_Sched", "random programs, profile %d" % profile)
    r.parts.append({"random programs, profile": profile, "histories": m})


def sched(menus, profiles, model):
    def check(r):
        b = r.build("rt_sched")
        q = r.quick
        r.model("MC_Sched", SPEC_CFG % (6 if q else 8, model))
        for m in menus:
            small(r, b, m, 4 if q else 5, 1)
            if not q:
                small(r, b, m, 4, 2)
        for p, n in profiles:
            drawn(r, b, p, n if q else n * 12)
    return check


def n01(r):
    b = r.build("rt_sched")
    q = r.quick
    r.model("NativePool", POOL_CFG % (("1, 2, 3", 2, 0) if q else ("1, 2, 3", 2, 2)))
    r.model("NativePool", POOL_CFG % (("1, 2", 2, 2) if q else ("1, 2, 3, 4", 1, 1)))
    for kind, n, execs in (("random", 96, 80), ("ordered", 32, 100)) if q else (("random", 800, 200), ("ordered", 200, 400)):
        outs, cmds = [], []
        for k in range(8):
            t = os.path.join(r.work, "native-%s-%d.ndjson" % (kind, k))
            outs.append(t)
            cmds.append([b, "native", "--seed", str(r.seed * 1000 + k), "--n", str(n // 8), "--execs", str(execs), "--random", "1" if kind == "random" else "0",
                         "--calls", "4", "--out", t])
        m = gather(r, cmds, outs, "native-" + kind, "Trace_Native", kind + " interleavings")
        r.parts.append({"background-call programs": n, "interleavings each": execs, "how": kind, "different histories": m})
    r.assumptions.append("memory is sequentially consistent between the interleaved atomic, lock and pipe steps")


CHECKS = {"T01": (sched([0], [(1, 2400), (0, 1600)], "wake"), "model_checking"),
          "T02": (sched([1], [(2, 2400), (0, 800)], "join"), "model_checking"),
          "T03": (sched([2, 4], [(3, 2800)], "raise"), "model_checking"),
          "T04": (sched([3], [(4, 2400), (1, 1200)], "io"), "model_checking"),
          "N01": (n01, "model_checking")}
