"""V01, I01: instance-variable tables (value/rvalue/ivar_table.rs) and the
identifier table (id_table.rs)."""
import os

GROW_CFG = """SPECIFICATION Spec
CONSTANTS MaxLen = %d
 Caps = {0, 1, 2, 3, 5}
INVARIANTS Holds Size
CHECK_DEADLOCK FALSE
"""
RACE_CFG = """SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
 Names = {a, b}
 Calls = %d
 Recheck = TRUE
INVARIANTS OneToOne Named
CHECK_DEADLOCK FALSE
"""


def v01(r):
    b = r.build("rt_ivar")
    t = os.path.join(r.work, "t.ndjson")
    r.model("GrowTable", GROW_CFG % (5 if r.quick else 8))
    k = 3 if r.quick else 4
    r.run([b, "small", "--len", str(k), "--out", t])
    r.validate("Trace_IvarTable", t, label="all short histories from capacities 0 to 3")
    for j in range(1 if r.quick else 20):
        r.run([b, "gen", "--seed", str(r.seed * 100 + j), "--n", "1000", "--out", t])
        r.validate("Trace_IvarTable", t, label="random histories")
    r.parts.append({"exhaustive length": k, "random histories": 1000, "operations per history": 40, "batches": 1 if r.quick else 20})


def i01(r):
    b = r.build("rt_ids")
    t = os.path.join(r.work, "t.ndjson")
    r.model("InternRace", RACE_CFG % (2 if r.quick else 3))
    for j in range(1 if r.quick else 10):
        r.run([b, "single", "--seed", str(r.seed * 100 + j), "--n", "60", "--len", "150", "--out", t])
        r.validate("Trace_Interning", t, label="one thread")
        r.run([b, "threads", "--seed", str(r.seed * 100 + j), "--n", "60", "--len", "120", "--out", t])
        r.validate("Trace_Interning", t, label="four threads")
    r.parts.append({"histories": "60 of one thread, 60 of four threads", "batches": 1 if r.quick else 10})


CHECKS = {"V01": (v01, "model_checking"), "I01": (i01, "model_checking")}
