"""L01-L04: classes, modules, methods and refinements (globals/store/class.rs, refinement.rs, value/rvalue/module.rs)."""
import os
from c_string import together

MC = """SPECIFICATION Spec
CONSTANTS Depth = %d
 Methods = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
MCR = """SPECIFICATION Spec
CONSTANTS Depth = %d
INVARIANTS Fixed Distinct Added Latest Again Plain Refound
CHECK_DEADLOCK FALSE
"""
CHAINS = "Tails Once Kept Alone Whole Before Behind"
LOOKUP = "Nearest Downward Agree"


def gen(r, b, t, focus, n, batches, length=30):
    for j in range(batches):
        parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
        together(r, [[b, "hist", "--seed", str(r.seed * 1000 + j * 8 + i), "--n", str(n // 8), "--focus", focus,
                      "--len", str(length), "--out", f] for i, f in enumerate(parts)], parts, t)
        r.validate("Trace_Classes", t, label="random histories: " + focus)
    r.parts.append({"random histories": n * batches, "steps": length, "focus": focus})


def every(r, b, t, n, slices=8):
    for k in range(0, slices, 8):
        parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
        together(r, [[b, "all", "--len", str(n), "--part", str(k + i), "--parts", str(slices), "--out", f]
                     for i, f in enumerate(parts)], parts, t)
        r.validate("Trace_Classes", t, label="every sequence of %d mixing operations" % n)


def l01(r):
    b = r.build("rt_module")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Classes", MC % (3 if r.quick else 5, 0, CHAINS))
    every(r, b, t, 3)
    if not r.quick:
        every(r, b, t, 4, 64)
    gen(r, b, t, "anc", 800 if r.quick else 1600, 1 if r.quick else 8)


def l02(r):
    b = r.build("rt_module")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Classes", MC % (2 if r.quick else 3, 1, LOOKUP))
    gen(r, b, t, "met", 480 if r.quick else 960, 1 if r.quick else 8)


def l03(r):
    b = r.build("rt_module")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Classes", MC % (2 if r.quick else 3, 1, "Agree"))
    gen(r, b, t, "list", 800 if r.quick else 1600, 1 if r.quick else 10)


def l04(r):
    b = r.build("rt_module")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Refine", MCR % (5 if r.quick else 6))
    gen(r, b, t, "ref", 800 if r.quick else 1600, 1 if r.quick else 10)


CHECKS = {"L01": (l01, "model_checking"), "L02": (l02, "model_checking"), "L03": (l03, "model_checking"),
          "L04": (l04, "model_checking")}
