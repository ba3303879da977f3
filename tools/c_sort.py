"""Q01: sorting (monoruby/src/executor/op/sort.rs)."""
import os

MC_CFG = """SPECIFICATION Spec
CONSTANTS N = %d
 Keys = {%s}
 MaxIns = %d
 MinRun = %d
 Wild = %s
INVARIANTS Kept Whole Sorted Stack One
PROPERTIES Ends
CHECK_DEADLOCK FALSE
"""


def q01(r):
    b = r.build("rt_sort")
    t = os.path.join(r.work, "t.ndjson")
    todo = [(6, "1, 2, 3", 1, 2, "FALSE"), (6, "1", 1, 2, "TRUE"), (5, "1, 2, 3", 5, 2, "FALSE")]
    if not r.quick:
        todo += [(8, "1, 2", 1, 2, "FALSE"), (9, "1", 1, 2, "TRUE"), (7, "1, 2, 3", 1, 3, "FALSE"), (8, "1", 8, 2, "TRUE")]
    for x in todo:
        r.model("MergeSort", MC_CFG % x)
    r.run([b, "cmpint", "--out", t])
    r.validate("Trace_Sort", t, label="meanings of comparator results")
    r.run([b, "small", "--len", "5" if r.quick else "6", "--keys", "3", "--out", t])
    r.validate("Trace_Sort", t, label="all short arrays, a failure at every comparison")
    for k in range(1 if r.quick else 20):
        r.run([b, "gen", "--seed", str(r.seed * 100 + k), "--n", "1500", "--len", "70", "--out", t])
        r.validate("Trace_Sort", t, label="random arrays of up to 70 elements")
        r.run([b, "gen", "--seed", str(r.seed * 100 + 50 + k), "--n", "60", "--len", "400", "--out", t])
        r.validate("Trace_Sort", t, label="random arrays of up to 400 elements")
    r.parts.append({"method (length, keys, insertion limit, shortest run, arbitrary comparator)": todo,
                    "random arrays": 1560, "runs per array": "one without failure, two with a failing comparison", "batches": 1 if r.quick else 20})


CHECKS = {"Q01": (q01, "model_checking")}
