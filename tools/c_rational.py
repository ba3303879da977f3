"""E01-E03: rational numbers (value/rvalue/rational.rs)."""
import os

MC = """SPECIFICATION Spec
CONSTANTS Kind = "%s"
 N = %d
 D = %d
 M = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def gen(r, b, t, focus, n, batches):
    for j in range(batches):
        r.run([b, "gen", "--seed", str(r.seed * 1000 + j), "--focus", focus, "--n", str(n), "--out", t])
        r.validate("Trace_Rational", t, label="random operations: " + focus)
    r.parts.append({"random histories": n * batches, "operations each": 50, "focus": focus})


def e01(r):
    b = r.build("rt_rational")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Rational", MC % ("field", 12, 6, 12, "Normal Field Order") if r.quick else MC % ("field", 30, 12, 30, "Normal Field Order"))
    r.run([b, "pairs", "--n", "6" if r.quick else "12", "--den", "5" if r.quick else "8", "--out", t])
    r.validate("Trace_Rational", t, label="every two small rationals")
    gen(r, b, t, "arith", 1000, 1 if r.quick else 20)


def e02(r):
    b = r.build("rt_rational")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Rational", MC % (("round", 60, 12, 1, "Sides Nearest Kinds") if r.quick else ("round", 300, 40, 1, "Sides Nearest Kinds")))
    r.run([b, "all", "--n", "60" if r.quick else "400", "--den", "10" if r.quick else "20", "--out", t])
    r.validate("Trace_Rational", t, label="every rounding of every small rational")
    gen(r, b, t, "round", 1000, 1 if r.quick else 20)


def e03(r):
    b = r.build("rt_rational")
    t = os.path.join(r.work, "t.ndjson")
    r.model("MC_Rational", MC % (("simple", 30, 8, 8, "Simple Power") if r.quick else ("simple", 60, 12, 12, "Simple Power")))
    r.run([b, "pairs", "--focus", "near", "--n", "10" if r.quick else "16", "--den", "6" if r.quick else "10", "--out", t])
    r.validate("Trace_Rational", t, label="every small rational and tolerance")
    gen(r, b, t, "near", 1000, 1 if r.quick else 20)


CHECKS = {"E01": (e01, "model_checking"), "E02": (e02, "model_checking"), "E03": (e03, "model_checking")}
