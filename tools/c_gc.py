"""G01..G03: the garbage-collected heap (monoruby/src/alloc.rs)."""
import json, os

MC_CFG = """SPECIFICATION Spec
CONSTANTS Objs = {%s}
 %s
 Places = {%s}
 RootPlaces = {%s}
 Age = %d
INVARIANTS Inv Exact
SYMMETRY Sym
CHECK_DEADLOCK FALSE
"""
SIM_CFG = """SPECIFICATION Spec
CONSTANTS Places = {1, 2}
 RootPlaces = {1, 2, 3}
 Age = 3
 Depth = %d
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""


def small_heaps(r):
    todo = [(3, "1", "1, 2", 2), (3, "1, 2", "1", 2)]
    if not r.quick:
        todo += [(3, "1, 2", "1, 2", 2), (3, "1", "1, 2", 3), (4, "1", "1, 2", 2)]
    for n, pl, ro, age in todo:
        os_ = ["o%d" % i for i in range(n)]
        r.model("MC_GcMark", MC_CFG % (", ".join(os_), " ".join("%s = %s" % (o, o) for o in os_), pl, ro, age), heap="12g")
    r.parts.append({"model": "MC_GcMark", "configurations (objects, places, roots, promotion age)": todo})


def walks(r, b, num, depth):
    em = r.simulate("Sim_GcMark", SIM_CFG % depth, num, depth + 8, r.seed)
    inp, t = os.path.join(r.work, "walks.txt"), os.path.join(r.work, "walks.ndjson")
    with open(inp, "w") as f:
        for x in em:
            f.write(";".join(",".join(map(str, o)) for o in x["p"]) + "\n")
    r.run([b, "walk", "--in", inp, "--out", t])
    r.validate("Trace_GcHeap", t, label="walks of the collector's mechanism")
    with open(t) as f:
        got = [[e["m"] for e in json.loads(l)["ev"]] for l in f]
    # informative only: how closely the mechanism model follows the code
    same = sum(all(z in (-1, g) for z, g in zip(x["z"], y)) for x, y in zip(em, got))
    r.parts.append({"walks": len(em), "walks_with_exactly_the_predicted_remembered_sets": same})


def gc_check(prop, n, length):
    def f(r):
        b = r.build("rt_gc")
        small_heaps(r)
        walks(r, b, 60 if r.quick else 600, 90)
        for k in range(1 if r.quick else 15):
            t = os.path.join(r.work, "t.ndjson")
            r.run([b, "gen", "--profile", prop, "--seed", str(r.seed * 1000 + k), "--n", str(n), "--len", str(length), "--out", t])
            r.validate("Trace_GcHeap", t, label="heap histories of profile " + prop)
            # long histories: many collections, so that full ones also come by themselves
            r.run([b, "gen", "--profile", prop, "--seed", str(r.seed * 1000 + 500 + k), "--n", str(n // 20), "--len", "500", "--out", t])
            r.validate("Trace_GcHeap", t, label="long heap histories of profile " + prop)
        r.parts.append({"histories": n, "operations_per_history": length, "long histories": n // 20, "batches": 1 if r.quick else 15})
        r.assumptions += ["the object's own part (release, ages, barrier on every store) follows the contract of GCBox; a stand-in object of the runtime's size is used because the runtime itself cannot be built offline"]
    return f


CHECKS = {
    "G01": (gc_check("G01", 700, 70), "model_checking"),
    "G02": (gc_check("G02", 500, 60), "model_checking"),
    "G03": (gc_check("G03", 700, 70), "model_checking"),
}
