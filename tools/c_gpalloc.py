"""A01: the local register allocator (monoruby/src/codegen/jitgen/gp_alloc.rs)."""
import os

MC_CFG = """SPECIFICATION Spec
CONSTANTS Slots = {%s}
 Regs = {%s}
INVARIANTS Current Clean Reads
CHECK_DEADLOCK FALSE
"""


def a01(r):
    b = r.build("rt_gpalloc")
    t = os.path.join(r.work, "t.ndjson")
    sizes = [(3, 2), (4, 2), (3, 3)] if r.quick else [(3, 2), (4, 2), (3, 3), (4, 3), (5, 2), (5, 3)]
    for s, g in sizes:
        r.model("MC_GpAlloc", MC_CFG % (", ".join(map(str, range(1, s + 1))), ", ".join(map(str, range(1, g + 1)))))
    r.run([b, "small", "--slots", "2" if r.quick else "3", "--out", t])
    r.validate("Trace_GpAlloc", t, label="all short programs")
    for k in range(1 if r.quick else 20):
        n = 1000
        r.run([b, "gen", "--seed", str(r.seed * 100 + k), "--n", str(n), "--out", t])
        r.validate("Trace_GpAlloc", t, label="random programs")
        r.run([b, "file", "--seed", str(r.seed * 100 + k), "--n", str(n), "--out", t])
        r.validate("Trace_GpAlloc", t, label="register file histories")
    r.parts.append({"allocation scheme (slots, registers)": sizes, "random programs": 20 * n, "register file histories": n, "batches": 1 if r.quick else 20})


CHECKS = {"A01": (a01, "model_checking")}
