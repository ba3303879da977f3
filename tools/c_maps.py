"""M01..M09, S01: the ordered map and set of /repo/rubymap."""
import json, os

MC_CFG = """SPECIFICATION Spec
CONSTANTS Profile = "%s"
 Fills = {%s}
 Depth = %d
 Emit = TRUE
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANT Unique
PROPERTY Laws
CHECK_DEADLOCK FALSE
"""
# classes and hash classes of MC_OrderedMap's universe
C = [1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]
H = [1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]
M64 = (1 << 64) - 1


def digests(seed, scheme):
    """u64 per hash class: 0 unrelated, 1 same bucket, 2 same tag, 3 all equal"""
    out = []
    for h in H:
        x = (h * 0x9E3779B97F4A7C15 + seed * 0xD1B54A32D192ED03) & M64
        if scheme == 1:
            x = (x & ~0xFFFFF & M64) | 5
        elif scheme == 2:
            x = x & ((1 << 57) - 1)
        elif scheme == 3:
            x = 42
        out.append(x)
    return out


def opstr(o):
    return " ".join([o[0]] + [str(x) for x in o[1]])


def replay(r, binary, mode, emitted, scheme):
    inp, outp = os.path.join(r.work, "in.txt"), os.path.join(r.work, "out.txt")
    with open(inp, "w") as f:
        for x in emitted:
            f.write(";".join(opstr(o) for o in x["p"]) + "\n")
    r.run([binary, mode, "--in", inp, "--out", outp, "--c", ",".join(map(str, C)),
           "--h", ",".join(map(str, H)), "--digest", ",".join(map(str, digests(r.seed, scheme)))])
    with open(outp) as f:
        got = [json.loads(l) for l in f]
    exp = [{"r": x["r"], "s": {k: x[k] for k in ("a", "b", "l", "n") if k in x}} for x in emitted]
    paths = [x["p"] for x in emitted]
    it = iter(paths)
    r.compare("transition replay, digest scheme %d" % scheme, exp, got,
              lambda e, o: {"path": paths[[i for i in range(len(exp)) if exp[i] != got[i]][0]],
                            "expected": e, "observed": o})


def map_check(prop, depth, n, mc_profile=None, length=40, fills="0, 7, 8", qfills=None):
    def f(r):
        b = r.build("rubymap_h")
        if mc_profile:
            d = depth[0] if r.quick else depth[1]
            em = r.model("MC_OrderedMap", MC_CFG % (mc_profile, (qfills or fills) if r.quick else fills, d), heap="12g")
            r.parts.append({"model": "MC_OrderedMap %s" % mc_profile, "depth": d, "transitions_emitted": len(em)})
            for scheme in ((r.seed % 3, 3) if r.quick else (0, 1, 2, 3)):
                replay(r, b, "map-replay", em, scheme)
        batches = 1 if r.quick else 12
        for k in range(batches):
            t = os.path.join(r.work, "t.ndjson")
            r.run([b, "map-gen", "--profile", prop, "--seed", str(r.seed * 1000 + k), "--n", str(n),
                   "--len", str(length), "--out", t])
            m = r.validate("Trace_OrderedMap", t, label="histories of profile %s" % prop)
        r.parts.append({"histories_per_batch": m, "batches": batches, "operations_per_history": length})
        r.assumptions += ["key eql is an equivalence and equal keys have equal hashes (enforced by the generated universe)"]
    return f


def set_check(r):
    b = r.build("rubymap_h")
    d = 2 if r.quick else 3
    cfg = "\n".join(l for l in (MC_CFG % ("S01", "0, 2, 7, 8" if r.quick else "0, 2, 7, 8", d)).split("\n"))
    cfg = cfg.replace('Profile = "S01"\n ', "")
    em = r.model("MC_OrderedSet", cfg, heap="12g")
    r.parts.append({"model": "MC_OrderedSet", "depth": d, "transitions_emitted": len(em)})
    for scheme in ((r.seed % 4,) if r.quick else (0, 1, 2, 3)):
        replay(r, b, "set-replay", em, scheme)
    for k in range(1 if r.quick else 12):
        t = os.path.join(r.work, "t.ndjson")
        r.run([b, "set-gen", "--seed", str(r.seed * 1000 + k), "--n", "1800", "--len", "40", "--out", t])
        r.validate("Trace_OrderedSet", t, label="set histories")
    r.assumptions += ["element eql is an equivalence and equal elements have equal hashes (enforced by the generated universe)"]


CHECKS = {
    "S01": (set_check, "model_checking"),
    "M01": (map_check("M01", (2, 4), 1800, "M01", qfills="0, 2, 7, 8"), "model_checking"),
    "M02": (map_check("M02", (3, 4), 2500), "model_checking"),
    "M03": (map_check("M03", (4, 5), 1500, "M03"), "model_checking"),
    "M04": (map_check("M04", (2, 3), 1500, "M04"), "model_checking"),
    "M05": (map_check("M05", (2, 3), 1500, "M05"), "model_checking"),
    "M06": (map_check("M06", (3, 4), 1500, "M06"), "model_checking"),
    "M07": (map_check("M07", (3, 4), 1500, "M07"), "model_checking"),
    "M08": (map_check("M08", (3, 4), 1000, "M08"), "model_checking"),
    "M09": (map_check("M09", (3, 4), 1500, "M09"), "model_checking"),
}
