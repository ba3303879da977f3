"""Plumbing shared by all checks: build a harness, run it, run TLC, compare,
write evidence.  Nothing in here knows what a correct result is; that is in
spec/*.tla."""
import json, os, re, shutil, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TOOLCHAIN = "nightly-2026-05-18"


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class ToolError(Exception):
    pass


class Run:
    """One execution of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.parts, self.assumptions = [], [], []
        self.known = []

    # ------------------------------------------------------------- builds
    def build(self, crate, extra_env=None):
        env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true",
                   CARGO_TARGET_DIR=os.path.join(VERIF, ".build", crate))
        env.pop("RUSTFLAGS", None)
        env.update(extra_env or {})
        p = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "harness", crate),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("harness %s does not build:\n%s" % (crate, p.stdout[-4000:]))
        return os.path.join(VERIF, ".build", crate, "debug", crate)

    def run(self, argv, timeout=600, env=None, cwd=None):
        """Run a harness binary.  A hang or a fatal signal inside the code
        under test is a violation, anything else unexpected a tool error."""
        try:
            p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               env=dict(os.environ, **(env or {})), cwd=cwd)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out: %s" % " ".join(argv))
        err = p.stderr.decode("utf8", "replace")
        if p.returncode == 99:
            raise Violation("the implementation does not return", {"cmd": argv, "stderr": err[-3000:]})
        if p.returncode < 0 and -p.returncode in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL,
                                                  signal.SIGABRT, signal.SIGFPE):
            raise Violation("the implementation died of signal %d" % -p.returncode,
                            {"cmd": argv, "stderr": err[-3000:]})
        if p.returncode != 0:
            raise ToolError("harness failed (%d): %s\n%s" % (p.returncode, " ".join(argv), err[-3000:]))
        return p.stdout.decode("utf8", "replace")

    def run_all(self, cmds, **kw):
        """Run several harness processes side by side."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda c: self.run(c, **kw), cmds))

    # ---------------------------------------------------------------- TLC
    def cfg(self, name, text):
        p = os.path.join(self.work, name + ".cfg")
        with open(p, "w") as f:
            f.write(text)
        return p

    def tlc(self, module, cfg, env=None, timeout=800, heap="6g", args=(), workers=8):
        """Run TLC; returns (ok, emitted lines, log text)."""
        meta = os.path.join(self.work, "meta-" + module)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLAJARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                               env=dict(os.environ, **(env or {})), cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout.decode("utf8", "replace")
        emitted, log = [], []
        for l in out.split("\n"):
            if l.startswith('"{') or l.startswith('"['):
                emitted.append(json.loads(json.loads(l)))
            else:
                log.append(l)
        log = "\n".join(log)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", log)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        if "Model checking completed. No error has been found." in log:
            return True, emitted, log
        if "-simulate" in args and "The number of states generated" in log and "Error" not in log:
            self.transitions += int(re.findall(r"The number of states generated: (\d+)", log)[-1])
            return True, emitted, log
        if re.search(r"Error: (Invariant|Action property|Temporal properties|Property|Deadlock)", log) or \
           "is violated" in log or "Deadlock reached" in log:
            return False, emitted, log
        raise ToolError("TLC failed on %s:\n%s" % (module, log[-4000:]))

    def model(self, module, cfgtext, **kw):
        """Check the specification itself; a failure is an error of the
        machinery (the model contradicts its own laws)."""
        ok, emitted, log = self.tlc(module, self.cfg(module, cfgtext), **kw)
        if not ok:
            raise ToolError("the specification %s violates its own properties:\n%s" % (module, log[-6000:]))
        return emitted

    def simulate(self, module, cfgtext, num, depth, seed, **kw):
        """Random walks of a specification (one worker, so that the seed
        decides); the emitted walks without repetitions."""
        out, seen = [], set()
        for x in self.model(module, cfgtext, workers=1, args=("-simulate", "num=%d" % num, "-depth", str(depth),
                                                              "-seed", str(seed)), **kw):
            k = json.dumps(x)
            if k not in seen:
                seen.add(k)
                out.append(x)
        return out

    # ------------------------------------------------- code -> specification
    def validate(self, module, trace, cfgtext=None, label="", env=None, **kw):
        """Have TLC decide whether the recorded histories in `trace` are
        behaviours of the specification."""
        if cfgtext is None:
            cfg = os.path.join(SPEC, module + ".cfg")
        else:
            cfg = self.cfg(module + label, cfgtext)
        with open(trace) as f:
            lines = f.read().split("\n")
        lines = [l for l in lines if l]
        if not lines:
            raise ToolError("empty trace file " + trace)
        e = {"TRACE": trace}
        e.update(env or {})
        ok, _, log = self.tlc(module, cfg, env=e, **kw)
        if not ok:
            tid = re.findall(r"^/\\ tid = (\d+)", log, re.M)
            idx = re.findall(r"^/\\ i = (\d+)", log, re.M)
            bad = re.findall(r'^/\\ bad = "(.*)"', log, re.M)
            state = log[log.rfind("\nState "):][:6000]
            d = {"module": module, "label": label, "model_state": state}
            if tid:
                h = json.loads(lines[int(tid[-1]) - 1])
                k = int(idx[-1])
                d["rejected_event"] = h["ev"][k - 1] if k <= len(h["ev"]) else None
                h["ev"] = h["ev"][:k]
                d["history"] = h
            raise Violation("the specification rejects an execution (%s)" % (bad[-1] if bad else "?"), d)
        n = len(lines)
        self.traces += n
        ev = 0
        for l in lines:
            ev += l.count('"r":[')
        self.events += ev
        if len(self.samples) < 3:
            h = json.loads(lines[self.seed % n])
            h["ev"] = h["ev"][:6]
            self.samples.append({"recorded": label or module, "first_events": h})
        return n

    # ------------------------------------------------- specification -> code
    def compare(self, label, expected, observed, describe):
        """Emitted transitions against what the real code did."""
        if len(expected) != len(observed):
            raise ToolError("%s: %d expected, %d observed" % (label, len(expected), len(observed)))
        for x, o in zip(expected, observed):
            if x != o:
                d = describe(x, o)
                d["label"] = label
                raise Violation("the implementation disagrees with the specification", d)
        self.traces += len(expected)
        if expected and len(self.samples) < 6:
            self.samples.append({"replayed": label, "transition": expected[self.seed % len(expected)]})

    # ------------------------------------------------------------ evidence
    def evidence(self, level, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "recorded_events": self.events, "parts": self.parts,
               "samples": self.samples or ["none"]}
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


def main(registry):
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print("usage: check.py PROPERTY; known: %s" % " ".join(sorted(registry)))
        sys.exit(2)
    prop = sys.argv[1]
    fn, level = registry[prop]
    r = Run(prop)
    try:
        fn(r)
        for k in r.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        r.evidence(level, 0)
        print("OK property=%s tier=%s seed=%d states=%d traces=%d events=%d wall=%.1fs" % (
            prop, r.tier, r.seed, r.states, r.traces, r.events, time.time() - r.t0))
        code = 0
    except Violation as v:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-seed%d.json" % (prop, r.seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "what": v.what, "tier": r.tier, "seed": r.seed,
                       "detail": v.detail}, f, indent=1, default=str)
        r.evidence(level, 1)
        print(v.what)
        print(json.dumps(v.detail, default=str)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    except ToolError as e:
        print("ERROR property=%s: %s" % (prop, e))
        code = 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s: the check itself failed" % prop)
        code = 2
    shutil.rmtree(r.work, ignore_errors=True)
    sys.exit(code)
