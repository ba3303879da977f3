"""R01-R03: Ruby's Hash objects (value/rvalue/hash.rs)."""
import os

CFG = """SPECIFICATION Spec
CONSTANTS Cap = 2
 IterMax = 1
 MaxDepth = %d
 ReplaceRefused = TRUE
 ModeCompacts = TRUE
 PromoteCarries = TRUE
INVARIANTS SameContent SamePlaces InlineIsSmall BoxedCounts CanGo
CHECK_DEADLOCK FALSE
"""


def small(r, b, t, n):
    r.run([b, "small", "--len", str(n), "--out", t])
    r.validate("Trace_RubyHash", t, label="all histories of %d operations from 10 first states" % n)


def gen(r, b, t, focus, n, batches):
    for j in range(batches):
        parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
        r.run_all([[b, "gen", "--seed", str(r.seed * 1000 + j * 8 + i), "--n", str(n // 8), "--focus", focus, "--out", f]
                   for i, f in enumerate(parts)])
        with open(t, "w") as o:
            for f in parts:
                with open(f) as i:
                    o.write(i.read())
                os.remove(f)
        r.validate("Trace_RubyHash", t, label="random histories: " + focus)
    r.parts.append({"random histories": n * batches, "operations per history": 40, "focus": focus})


def r01(r):
    b = r.build("rt_hash")
    t = os.path.join(r.work, "t.ndjson")
    r.model("HashRep", CFG % 1)
    small(r, b, t, 2 if r.quick else 3)
    gen(r, b, t, "all", 4000 if r.quick else 12000, 1 if r.quick else 10)


def r02(r):
    b = r.build("rt_hash")
    t = os.path.join(r.work, "t.ndjson")
    r.model("HashRep", CFG % (1 if r.quick else 2))
    gen(r, b, t, "iter", 4000 if r.quick else 12000, 1 if r.quick else 10)


def r03(r):
    b = r.build("rt_hash")
    t = os.path.join(r.work, "t.ndjson")
    gen(r, b, t, "equal", 4000 if r.quick else 12000, 1 if r.quick else 10)


CHECKS = {"R01": (r01, "model_checking"), "R02": (r02, "model_checking"), "R03": (r03, "model_checking")}
