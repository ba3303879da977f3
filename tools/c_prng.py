"""U01: the seeded random number generator (globals/prng.rs)."""
import os

MC = """SPECIFICATION Spec
CONSTANTS Kind = "%s"
 N = %d
 H = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def u01(r):
    b = r.build("rt_prng")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Prng", MC % ("known", 0, 16, "First Later"))
    r.model("MC_Prng", MC % ("uniform", 3, 1, "Uniform"))
    if not r.quick:
        r.model("MC_Prng", MC % ("uniform", 1, 3, "Uniform"))
    n = 1 if r.quick else 12
    for j in range(n):
        r.run([b, "draws", "--seed", str(r.seed * 1000 + j), "--n", "24", "--len", "40", "--out", t])
        r.validate("Trace_Prng", t, label="random seeds and draws")
    r.parts.append({"random histories": 24 * n, "draws each": 40})


CHECKS = {"U01": (u01, "model_checking")}
