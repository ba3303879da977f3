"""F01, F02: glob patterns and brace groups (monoruby/src/builtins/fnmatch.rs)."""
import os


def f01(r):
    b = r.build("rt_fnmatch")
    t = os.path.join(r.work, "t.ndjson")
    todo = [(0, 3, 3, "0,2,4,6"), (1, 3, 3, "0,1,4"), (2, 4, 2, "0"), (3, 5, 3, "2,6"), (4, 4, 2, "0,8")]
    if not r.quick:
        todo += [(0, 5, 3, "0,2,4,6"), (1, 4, 3, "0,1,2,4"), (2, 5, 2, "0"), (3, 6, 4, "2,6"), (4, 5, 2, "0,8")]
    for s, n, k, fl in todo:
        r.run([b, "small", "--set", str(s), "--len", str(n), "--nlen", str(k), "--flags", fl, "--out", t])
        r.validate("Trace_Glob", t, label="all patterns over alphabet %d up to length %d" % (s, n))
    n = 2500 if r.quick else 60000
    r.run([b, "gen", "--seed", str(r.seed), "--n", str(n), "--out", t])
    r.validate("Trace_Glob", t, label="random patterns and names derived from them")
    r.parts.append({"exhaustive (alphabet, pattern length, name length, flag sets)": todo, "random patterns": n, "names per pattern": 12, "flag sets per pattern": 6})


def f02(r):
    b = r.build("rt_fnmatch")
    t = os.path.join(r.work, "t.ndjson")
    k, n = (6, 4000) if r.quick else (8, 60000)
    r.run([b, "braces-small", "--len", str(k), "--out", t])
    r.validate("Trace_Glob", t, label="all texts over { } , \\ a up to length %d" % k)
    r.run([b, "braces-gen", "--seed", str(r.seed), "--n", str(n), "--out", t])
    r.validate("Trace_Glob", t, label="random texts with brace groups")
    r.parts.append({"exhaustive length": k, "random texts": n})


CHECKS = {"F01": (f01, "model_checking"), "F02": (f02, "model_checking")}
