"""X01-X03: Ruby's String objects (value/rvalue/string.rs)."""
import os

RANGE = """SPECIFICATION Spec
CONSTANTS MaxX = %d
 MaxY = %d
 ReverseForgets = TRUE
 RepeatForgets = TRUE
 SpliceLooks = TRUE
 SubLooks = TRUE
 CheckedByEncoding = TRUE
INVARIANT CacheRight
CHECK_DEADLOCK FALSE
"""
SHARE = """SPECIFICATION Spec
CONSTANTS Objs = {1,2,3,4}
 Slots = {11,12}
 Barrier = TRUE
 ReplaceBarrier = TRUE
 CopyOnWrite = TRUE
 FrozenOnlyRoot = TRUE
 WithParts = %s
INVARIANTS Independent RootsFrozen Generations
CHECK_DEADLOCK FALSE
"""


def together(r, cmds, parts, t):
    r.run_all(cmds)
    with open(t, "w") as o:
        for f in parts:
            with open(f) as i:
                o.write(i.read())
            os.remove(f)


def gen(r, b, t, focus, n, batches):
    for j in range(batches):
        parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
        together(r, [[b, "gen", "--seed", str(r.seed * 1000 + j * 8 + i), "--n", str(n // 8), "--focus", focus, "--out", f]
                     for i, f in enumerate(parts)], parts, t)
        r.validate("Trace_RString", t, label="random histories: " + focus)
    r.parts.append({"random histories": n * batches, "operations per history": 40, "focus": focus})


def table(r, b, t, n):
    parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
    together(r, [[b, "table", "--len", str(n), "--part", str(i), "--parts", "8", "--out", f]
                 for i, f in enumerate(parts)], parts, t)
    r.validate("Trace_RString", t, label="all strings of up to %d of 22 bytes in 10 encodings" % n)


def leads(r, b, t, n):
    parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
    together(r, [[b, "table", "--len", str(n), "--leads", "1", "--part", str(i), "--parts", "8", "--out", f]
                 for i, f in enumerate(parts)], parts, t)
    r.validate("Trace_RString", t, label="lead byte and %d of 22 bytes in UTF-8, EUC-JP and Shift_JIS" % n)


def x01(r):
    b = r.build("rt_string")
    t = os.path.join(r.work, "t.ndjson")
    r.model("StrRange", RANGE % ((3, 2) if r.quick else (4, 3)))
    gen(r, b, t, "class", 1600 if r.quick else 8000, 1 if r.quick else 6)


def x02(r):
    b = r.build("rt_string")
    t = os.path.join(r.work, "t.ndjson")
    r.model("StrShare", SHARE % ("FALSE" if r.quick else "TRUE"))
    gen(r, b, t, "share", 4000 if r.quick else 12000, 1 if r.quick else 10)


def x03(r):
    b = r.build("rt_string")
    t = os.path.join(r.work, "t.ndjson")
    table(r, b, t, 2 if r.quick else 3)
    leads(r, b, t, 2 if r.quick else 3)
    gen(r, b, t, "nav", 1600 if r.quick else 8000, 1 if r.quick else 6)


CHECKS = {"X01": (x01, "model_checking"), "X02": (x02, "model_checking"), "X03": (x03, "model_checking")}
