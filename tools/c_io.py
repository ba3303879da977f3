"""B01, B02: buffered streams (value/rvalue/io.rs, io/buf.rs)."""
import os

CFG = """SPECIFICATION Spec
CONSTANTS Size = %d
 RCap = 2
 WCap = 3
 MaxOps = %d
 FoldPushback = TRUE
 UnreadOnWrite = TRUE
 DrainOnRead = TRUE
 GiveBack = TRUE
INVARIANTS Delivered Corresponds
CHECK_DEADLOCK FALSE
"""


def small(r, b, t, kinds, label):
    """every short history under a few ways of answering the system calls"""
    files = []
    cmds = []
    for k, n in kinds:
        for u in (1, 1024):
            f = os.path.join(r.work, "s_%s_%d.ndjson" % (k, u))
            files.append(f)
            cmds.append([b, "small", "--kind", k, "--unit", str(u), "--len", str(n), "--out", f])
    r.run_all(cmds)
    with open(t, "w") as o:
        for f in files:
            with open(f) as i:
                for line in i:
                    o.write(line)
            os.remove(f)
    r.validate("Trace_IoStream", t, label=label)


def gen(r, b, t, kinds, n, batches):
    for j in range(batches):
        parts = [os.path.join(r.work, "g%d.ndjson" % i) for i in range(8)]
        r.run_all([[b, "gen", "--seed", str(r.seed * 1000 + j * 8 + i), "--n", str(n // 8), "--kinds", kinds, "--out", f]
                   for i, f in enumerate(parts)])
        with open(t, "w") as o:
            for f in parts:
                with open(f) as i:
                    o.write(i.read())
                os.remove(f)
        r.validate("Trace_IoStream", t, label="random histories: " + kinds)


def b01(r):
    b = r.build("rt_io")
    t = os.path.join(r.work, "t.ndjson")
    r.model("IoBuffers", CFG % ((3, 5) if r.quick else (5, 8)))
    q = r.quick
    small(r, b, t, [("wfile", 3 if q else 4), ("wpipe", 4 if q else 5), ("stdout", 4 if q else 5), ("stderr", 3), ("popen", 1 if q else 2)],
          "all short histories of written streams")
    n = 8000 if q else 16000
    gen(r, b, t, "wfile,wpipe,stdout,stderr,sock,file,popen", n, 1 if q else 12)
    r.parts.append({"random histories": n, "operations per history": 20, "batches": 1 if q else 12})


def b02(r):
    b = r.build("rt_io")
    t = os.path.join(r.work, "t.ndjson")
    r.model("IoBuffers", CFG % ((4, 5) if r.quick else (4, 8)))
    q = r.quick
    small(r, b, t, [("file", 2 if q else 3), ("rfile", 3), ("rpipe", 3), ("stdin", 3), ("sock", 2 if q else 3), ("popen", 1 if q else 2)],
          "all short histories of read streams")
    n = 8000 if q else 16000
    gen(r, b, t, "rfile,rpipe,stdin,sock,file,popen", n, 1 if q else 12)
    r.parts.append({"random histories": n, "operations per history": 20, "batches": 1 if q else 12})


CHECKS = {"B01": (b01, "model_checking"), "B02": (b02, "model_checking")}
