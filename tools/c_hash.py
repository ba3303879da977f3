"""H01..H06: the unordered table, map and set of /repo/hashbrown."""
import json, os

RAW_CFG = """SPECIFICATION Spec
CONSTANTS W = %d
 H1s = {%s}
 Tags = {%s}
 Copies = %d
 MaxN = %d
INVARIANTS Inv Sizes
PROPERTIES Refines Reserved
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
"""
SIM_CFG = """SPECIFICATION Spec
CONSTANTS W = 16
 Depth = 150
 MaxN = %d
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""
TRACE = {"table": "Trace_HashTable", "map": "Trace_HashMap", "set": "Trace_HashSet"}


def small_tables(r):
    """the structural model: every history of small tables with small groups"""
    todo = [(2, "0, 3, 7", "0", 2, 8), (4, "0, 3, 7", "0", 2, 8)]
    if not r.quick:
        todo += [(4, "0, 3", "0, 1", 2, 8), (2, "0, 5, 6, 7", "0", 2, 8)]
    for x in todo:
        r.model("MC_RawTable", RAW_CFG % x, heap="12g")
    r.parts.append({"model": "MC_RawTable", "configurations (W, start positions, tags, copies, buckets)": todo})


def walks(r, b, num, maxn):
    """the structural model with 16-byte groups leads, the real table follows"""
    em = r.simulate("Sim_RawTable", SIM_CFG % maxn, num, 400, r.seed)
    inp, t = os.path.join(r.work, "walks.txt"), os.path.join(r.work, "walks.ndjson")
    with open(inp, "w") as f:
        for x in em:
            f.write(";".join(",".join(map(str, o)) for o in x["p"]) + "\n")
    r.run([b, "table-walk", "--in", inp, "--out", t])
    r.validate("Trace_HashTable", t, label="walks of the structural model")
    with open(t) as f:
        caps = [json.loads(l)["c"] for l in f]
    # informative only: how closely the structural model follows the code
    r.parts.append({"walks": len(em), "in_place_rehashes": sum(x["z"][0] for x in em),
                    "tombstones": sum(x["z"][1] for x in em), "resizes": sum(x["z"][2] for x in em),
                    "walks_with_exactly_the_predicted_capacities": sum(x["c"] == c for x, c in zip(em, caps))})


def hash_check(prop, parts, structure=False):
    def f(r):
        b = r.build("hashbrown_h")
        if structure:
            small_tables(r)
            walks(r, b, 40 if r.quick else 400, 32)
            if not r.quick:
                walks(r, b, 150, 128)
        for k in range(1 if r.quick else 12):
            for kind, n in parts:
                t = os.path.join(r.work, "t.ndjson")
                r.run([b, kind + "-gen", "--profile", prop, "--seed", str(r.seed * 1000 + k), "--n", str(n),
                       "--len", "40", "--out", t])
                r.validate(TRACE[kind], t, label="%s histories of profile %s" % (kind, prop))
        r.parts.append({"histories per batch": parts, "batches": 1 if r.quick else 12, "operations_per_history": 43})
        r.assumptions += ["the comparison is an equivalence and equal keys have equal hashes (enforced by the generated universe)"]
    return f


CHECKS = {
    "H01": (hash_check("H01", [("table", 700)], True), "model_checking"),
    "H02": (hash_check("H02", [("table", 800)]), "model_checking"),
    "H03": (hash_check("H03", [("map", 900)]), "model_checking"),
    "H04": (hash_check("H04", [("set", 900)]), "model_checking"),
    "H05": (hash_check("H05", [("table", 500), ("map", 500)]), "model_checking"),
    "H06": (hash_check("H06", [("table", 500), ("map", 400), ("set", 400)]), "model_checking"),
}
