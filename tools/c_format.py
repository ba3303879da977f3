"""P01-P04: sprintf, Kernel#format and String#% (executor/format.rs)."""
import os
from c_string import together

MC = """SPECIFICATION Spec
CONSTANTS Kind = "%s"
 N = %d
 W = %d
 P = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def gen(r, b, t, focus, n, batches):
    for j in range(batches):
        parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
        together(r, [[b, "calls", "--seed", str(r.seed * 1000 + j * 8 + i), "--n", str(n // 8), "--focus", focus, "--out", f]
                     for i, f in enumerate(parts)], parts, t)
        r.validate("Trace_Format", t, label="random calls: " + focus)
    r.parts.append({"random batches": n * batches, "calls per batch": 40, "focus": focus})


def p01(r):
    b = r.build("rt_format")
    t = os.path.join(r.work, "t.ndjson")
    inv = "IntReads IntWide IntSide"
    r.model("MC_Format", MC % (("int", 4, 6, 4, inv) if r.quick else ("int", 20, 9, 6, inv)))
    parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
    together(r, [[b, "grid", "--part", str(i), "--parts", "8", "--out", f] for i, f in enumerate(parts)], parts, t)
    r.validate("Trace_Format", t, label="every flag set, four widths, five precisions, twelve integers")
    gen(r, b, t, "ints", 800, 1 if r.quick else 20)


def p02(r):
    b = r.build("rt_format")
    t = os.path.join(r.work, "t.ndjson")
    inv = "FloatFixed FloatSci FloatG FloatWide FloatSigned"
    r.model("MC_Format", MC % (("float", 12, 12, 5, inv) if r.quick else ("float", 80, 12, 6, inv)))
    gen(r, b, t, "floats", 800, 1 if r.quick else 14)


def p03(r):
    b = r.build("rt_format")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Format", MC % (("text", 3, 6, 4, "TextField") if r.quick else ("text", 5, 8, 6, "TextField")))
    gen(r, b, t, "text", 1600, 1 if r.quick else 20)


def p04(r):
    b = r.build("rt_format")
    t = os.path.join(r.work, "t.ndjson")
    inv = "Taken OneWay Spare Suffix"
    r.model("MC_Format", MC % (("parse", 0, 0, 5, inv) if r.quick else ("parse", 0, 0, 6, inv)))
    r.run([b, "limits", "--out", t])
    r.validate("Trace_Format", t, label="numbers out of range, very wide fields")
    gen(r, b, t, "selection", 800, 1 if r.quick else 20)
    gen(r, b, t, "pieces", 800, 1 if r.quick else 20)


CHECKS = {"P01": (p01, "model_checking"), "P02": (p02, "model_checking"),
          "P03": (p03, "model_checking"), "P04": (p04, "model_checking")}
