"""W01, W02: the poll word, the preemption timer and pending signals
(poll_flag.rs, preempt.rs, codegen/signal_table.rs)."""
import os

POLL_CFG = """SPECIFICATION Spec
CONSTANTS ClearFirst = TRUE
 Signals = {%s}
 Handlers = {2, 3}
INVARIANTS Armed Kept
PROPERTIES Drained
CHECK_DEADLOCK FALSE
"""
TIMER_CFG = """SPECIFICATION Spec
CONSTANTS Atomic = TRUE
 Changes = %d
INVARIANTS Ticking One
CHECK_DEADLOCK FALSE
"""
ASSUME = "memory is sequentially consistent between the interleaved atomic steps"


def explore(r, b, kind, n, preempt, ticks, execs=3000, shards=8, env=None, label=""):
    """All interleavings of n programs within the limits, in parallel shards."""
    outs, cmds = [], []
    for k in range(shards):
        t = os.path.join(r.work, "%s-%d.ndjson" % (kind, k))
        outs.append(t)
        cmds.append([b, kind, "--seed", str(r.seed * 1000 + k), "--n", str(max(1, n // shards)), "--preempt", str(preempt),
                     "--ticks", str(ticks), "--execs", str(execs), "--out", t])
    r.run_all(cmds, env=env)
    lines = {}
    for t in outs:
        with open(t) as f:
            for l in f:
                lines[l] = 1
    t = os.path.join(r.work, kind + ".ndjson")
    with open(t, "w") as f:
        f.writelines(lines)
    r.validate("Trace_PollFlag", t, label=label or kind)
    r.parts.append({"programs": kind + (" " + label if label else ""), "count": n, "forced switches": preempt, "timer expiries": ticks,
                    "different histories": len(lines)})


def w01(r):
    b = r.build("rt_poll")
    q = r.quick
    r.model("PreemptTimer", TIMER_CFG % (8 if q else 20))
    explore(r, b, "lanes", 16 if q else 200, 2, 1)
    explore(r, b, "registry", 40 if q else 400, 2, 0)
    explore(r, b, "timer", 160 if q else 1600, 3, 2)
    explore(r, b, "timer", 16 if q else 160, 2, 1, env={"MONORUBY_PREEMPT_STRESS": "1"}, label="every poll preempts")
    explore(r, b, "timer", 16 if q else 160, 2, 1, env={"MONORUBY_NO_PREEMPT": "1"}, label="no preemption")
    if not q:
        explore(r, b, "lanes", 40, 3, 2, execs=20000)
        explore(r, b, "registry", 80, 3, 0, execs=20000)
    r.assumptions.append(ASSUME)


def w02(r):
    b = r.build("rt_poll")
    q = r.quick
    r.model("MC_PollFlag", POLL_CFG % ("2, 15" if q else "2, 15, 31"))
    t = os.path.join(r.work, "t.ndjson")
    r.run([b, "tables", "--seed", str(r.seed), "--out", t])
    r.validate("Trace_PollFlag", t, label="every signal number, and sets of pending signals")
    explore(r, b, "signals", 16 if q else 160, 2, 0)
    if not q:
        explore(r, b, "signals", 16, 3, 0, execs=20000)
    r.assumptions.append(ASSUME)


CHECKS = {"W01": (w01, "model_checking"), "W02": (w02, "model_checking")}
