"""K01, K02: Array#pack and String#unpack (value/rvalue/string/pack.rs)."""
import os
from c_string import together

MC = """SPECIFICATION Spec
CONSTANTS MaxDirs = %d
 MaxText = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def gen(r, b, t, focus, n, batches):
    for j in range(batches):
        parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
        together(r, [[b, "packs", "--seed", str(r.seed * 1000 + j * 8 + i), "--n", str(n // 8), "--focus", focus, "--out", f]
                     for i, f in enumerate(parts)], parts, t)
        r.validate("Trace_Pack", t, label="random templates: " + focus)
    r.parts.append({"random batches": n * batches, "calls per batch": 40, "focus": focus})


def table(r, b, t, n):
    parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
    together(r, [[b, "packtab", "--len", str(n), "--part", str(i), "--parts", "8", "--out", f]
                 for i, f in enumerate(parts)], parts, t)
    r.validate("Trace_Pack", t, label="all short strings of six alphabets, limits of lengths and lines")


def k01(r):
    b = r.build("rt_string")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Pack", MC % ((2, 3, "Round Singles1") if r.quick else (3, 3, "Round Singles1")))
    gen(r, b, t, "all", 1600, 1 if r.quick else 12)


def k02(r):
    b = r.build("rt_string")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Pack", MC % ((1, 5, "Round Base Blanks Chars") if r.quick else (2, 6, "Round Base Blanks Chars")))
    table(r, b, t, 3 if r.quick else 4)
    gen(r, b, t, "texts", 800 if r.quick else 1600, 1 if r.quick else 10)


CHECKS = {"K01": (k01, "model_checking"), "K02": (k02, "model_checking")}
