"""L05-L07: constants, class variables and names of modules (executor/constants.rs, globals/store/class.rs, globals/store/class/constants.rs)."""
import os
from c_string import together

MC = """SPECIFICATION Spec
CONSTANTS Depth = %d
 What = "%s"
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
MCN = """SPECIFICATION Spec
CONSTANTS NC = 2
 Mods = 3
 Depth = %d
INVARIANTS Kept Closed Public Leads Short Nameless Apart
CHECK_DEADLOCK FALSE
"""
CON = "Settled Found Gone Same2 Retry Undone Few Kept2 Listed"
VAR = "Mine Overtaken Below Others"


def gen(r, b, t, mode, module, n, batches, length):
    for j in range(batches):
        parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
        together(r, [[b, mode, "--seed", str(r.seed * 1000 + j * 8 + i), "--n", str(n // 8), "--len", str(length),
                      "--out", f] for i, f in enumerate(parts)], parts, t)
        r.validate(module, t, label="random histories: " + mode)
    r.parts.append({"random histories": n * batches, "steps": length, "mode": mode})


def l05(r):
    b = r.build("rt_const")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Constants", MC % (3, "con", CON))
    gen(r, b, t, "hist", "Trace_Constants", 400 if r.quick else 1600, 1 if r.quick else 6, 40)


def l06(r):
    b = r.build("rt_const")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Constants", MC % (5 if r.quick else 6, "var", VAR))
    gen(r, b, t, "vars", "Trace_Constants", 400 if r.quick else 1600, 1 if r.quick else 6, 30)


def l07(r):
    b = r.build("rt_const")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Naming", MCN % (6 if r.quick else 8))
    gen(r, b, t, "names", "Trace_Naming", 1200 if r.quick else 8000, 1 if r.quick else 6, 30)


CHECKS = {"L05": (l05, "model_checking"), "L06": (l06, "model_checking"), "L07": (l07, "model_checking")}
