"""Shared machinery of the checks: TLC runs, trace files, verdicts, evidence."""
import argparse, atexit, json, math, os, re, shutil, subprocess, sys, tempfile, time, traceback
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    pass


# ---------------------------------------------------------------- numbers
def num(x):
    """A float as the specification's number string."""
    if isinstance(x, bool):
        raise TypeError("bool where a number is expected")
    x = float(x)
    if x != x:
        return "nan"
    if x in (math.inf, -math.inf):
        return "inf" if x > 0 else "-inf"
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    return str(Fraction(repr(x)))


def nums(xs):
    return [num(x) for x in xs]


def fl(s):
    """A number string as a float."""
    if s in ("nan", "inf", "-inf"):
        return float(s)
    return float(Fraction(s))


def same(a, b, rt=1e-9, at=1e-9):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(rt * max(abs(a), abs(b)), at)


# ---------------------------------------------------------------- build
def build_java(force=False):
    srcs = [os.path.join(ROOT, "java", f) for f in sorted(os.listdir(os.path.join(ROOT, "java"))) if f.endswith(".java")]
    stamp = os.path.join(BUILD, "stamp")
    newest = max(os.path.getmtime(s) for s in srcs)
    if not force and os.path.exists(stamp) and os.path.getmtime(stamp) >= newest:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    r = subprocess.run(["javac", "-nowarn", "-cp", TLA + ":" + CM, "-d", tmp] + srcs, capture_output=True, text=True)
    if r.returncode:
        raise Machinery("javac: " + r.stderr)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
    os.rmdir(tmp)
    open(stamp, "w").close()


class TLCResult:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.bad, self.out, self.log, self.rc = [], [], "", 0
        self.inv = None
        self.actions = {}


class Check:
    def __init__(self, pid, level="model_checking"):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--worker")
        ap.add_argument("--worker-out")
        ap.add_argument("--worker-arg", default="")
        a = ap.parse_args()
        self.worker, self.worker_out, self.worker_arg = a.worker, a.worker_out, a.worker_arg
        self.pid, self.tier, self.seed, self.level = pid, a.tier, a.seed, level
        self.thorough = a.tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vb_%s_" % pid)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.notes, self.parts = [], [], [], {}
        self.findings_seen = {}
        self.assumptions = []
        kf = os.path.join(ROOT, "known_findings.json")
        self.known = [f for f in json.load(open(kf))["known"] if f["property"] == pid] if os.path.exists(kf) else []
        build_java()

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=4, heap="6g", timeout=300, extra=(), coverage=False):
        """Run TLC on spec/<module>.tla with the configuration text cfg."""
        d = tempfile.mkdtemp(dir=self.scratch)
        cfgf = os.path.join(d, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        rep = os.path.join(d, "rep.txt")
        open(rep, "w").close()
        e = dict(os.environ, REP_OUT=rep)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC,
               "-cp", BUILD + ":" + TLA + ":" + CM, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-workers", str(workers), "-config", cfgf] + list(extra)
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timeout on " + module)
        r = TLCResult()
        r.rc, r.log = p.returncode, p.stdout + p.stderr
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.log)
        if m:
            r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.search(r"depth of the complete state graph search is (\d+)", r.log)
        r.depth = int(m.group(1)) if m else 0
        with open(rep) as f:
            for line in f:
                if line.startswith("BAD "):
                    r.bad.append(json.loads(line[4:]))
                elif line.startswith("OUT "):
                    r.out.append(json.loads(line[4:]))
        m = re.search(r"Invariant (\w+) is violated|property (\w+) is violated|Action property (\w+)", r.log)
        if m:
            r.inv = next(g for g in m.groups() if g)
        r.wall = time.time() - t
        shutil.rmtree(d, ignore_errors=True)
        return r

    def model(self, module, cfg, name=None, min_states=1, **kw):
        """Exhaustive check of the model itself: any failure is a machinery failure, never a verdict on the code."""
        r = self.tlc(module, cfg, **kw)
        if r.rc != 0:
            raise Machinery("model %s fails (rc %d):\n%s" % (module, r.rc, r.log[-6000:]))
        if r.distinct < min_states:
            raise Machinery("model %s: only %d states" % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.parts[name or module] = {"states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)}
        return r

    def validate(self, module, cases, cfg=None, name=None, steps=None, env=None, done=False, **kw):
        """Validate recorded executions (list of JSON-able cases) with the trace specification <module>.

        Every case is one behaviour; reported clauses become violations."""
        if not cases:
            raise Machinery("no cases for " + module)
        f = os.path.join(self.scratch, "cases_%s_%d.ndjson" % (module, len(self.parts)))
        with open(f, "w") as fh:
            for c in cases:
                fh.write(json.dumps(c, separators=(",", ":")) + "\n")
        cfg = cfg or "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n"
        r = self.tlc(module, cfg, env=dict({"TRACE": f}, **(env or {})), **kw)
        for b in r.bad:
            c = cases[int(b["id"]) - 1]
            self.violation(b["clause"], {"case": c, "info": b.get("info")}, part=name or module)
        if r.rc != 0:
            if "OutOfMemory" in r.log or "Parsing or semantic analysis failed" in r.log or not re.search(
                    r"Error: (Evaluating|TLC threw|The|Attempted|In evaluation)", r.log):
                raise Machinery("TLC on %s (rc %d):\n%s" % (module, r.rc, r.log[-6000:]))
            # an event that the specification cannot even interpret
            self.violation("trace not interpretable by the specification",
                           {"tlc": r.log[-3000:]}, part=name or module)
        elif done:
            # the specification emits the number of every case it walks to the end
            left = set(range(1, len(cases) + 1)) - set(r.out)
            for i in sorted(left)[:20]:
                self.violation("the specification follows the trace to its end", {"case": cases[i - 1]}, part=name or module)
        elif steps is not None and r.distinct != steps:
            raise Machinery("%s consumed %d states, expected %d" % (module, r.distinct, steps))
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(cases)
        self.parts[name or module] = {"states": r.distinct, "transitions": r.generated, "cases": len(cases),
                                      "wall_s": round(r.wall, 1)}
        return r

    # ------------------------------------------------------------ workers
    def start(self, name, jit=False, arg=""):
        """Run the script's worker function <name> in a process of its own (interpreted unless jit)."""
        out = os.path.join(self.scratch, "w_%s_%s.json" % (name, re.sub(r"\W", "_", str(arg))[-40:]))
        e = dict(os.environ, NUMBA_DISABLE_JIT="0" if jit else "1")
        e["NUMBA_CACHE_DIR"] = os.path.join(self.scratch, "numba_" + name)
        p = subprocess.Popen([sys.executable, os.path.abspath(sys.argv[0]), "--tier", self.tier, "--seed", str(self.seed),
                              "--worker", name, "--worker-out", out, "--worker-arg", str(arg)],
                             env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return name, p, out

    def join(self, w):
        """Wait for a worker; take over its violations and return what it returned."""
        name, p, out = w
        log, _ = p.communicate()
        if p.returncode or not os.path.exists(out):
            raise Machinery("worker %s failed (%s):\n%s" % (name, p.returncode, log[-5000:]))
        with open(out) as f:
            d = json.load(f)
        self.findings_seen.update(d["seen"])
        for v in d["viol"]:
            self.violation(v["clause"], v["detail"], v["part"])
        for k, v in d["parts"].items():
            self.parts[k] = v
        for s in d["samples"]:
            self.sample(s)
        self.traces += d["traces"]
        return d["ret"]

    # ------------------------------------------------------------ verdicts
    def violation(self, clause, detail, part=""):
        for f in self.known:
            if f["clause"] == clause and all(_get(detail, k) == v for k, v in f["match"].items()):
                self.findings_seen.setdefault(f["id"], f["what"])
                return
        self.viol.append({"part": part, "clause": clause, "detail": detail})

    def known_hit(self, fid):
        """A known finding reproduced on its recorded input."""
        for f in self.known:
            if f["id"] == fid:
                self.findings_seen[fid] = f["what"]
                return True
        return False

    def expect(self, ok, clause, detail, part=""):
        if not ok:
            self.violation(clause, detail() if callable(detail) else detail, part)
        return ok

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:600])

    def finish(self):
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
        for fid, what in self.findings_seen.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        rep = None
        if self.viol:
            rep = os.path.join(ev, "replays", "%s.json" % self.pid)
            with open(rep, "w") as f:
                json.dump(self.viol[:25], f, indent=1, default=str)
        doc = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
               "coverage": {"states": self.states, "transitions": self.transitions,
                            "traces_validated_against_impl": self.traces,
                            "samples": (self.samples or ["none"])[:12], "parts": self.parts,
                            "notes": self.notes},
               "wall_s": round(time.time() - self.t0, 2),
               "assumptions": self.assumptions,
               "violations": len(self.viol)}
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        if self.viol:
            seen = {}
            for v in self.viol:
                seen[(v["part"], v["clause"])] = seen.get((v["part"], v["clause"]), 0) + 1
            for (p, c), n in list(seen.items())[:20]:
                print("  %s: %s (%d)" % (p, c, n))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        print("%s %s ok: %d states, %d traces, %.1fs" % (self.pid, self.tier, self.states, self.traces, time.time() - self.t0))
        return 0


def _get(d, path):
    for k in path.split("."):
        if isinstance(d, list):
            k = int(k)
            d = d[k] if k < len(d) else None
        elif isinstance(d, dict):
            d = d.get(k)
        else:
            return None
    return d


def in_repo(tb):
    return any("/repo/vectorbt" in f.filename for f in traceback.extract_tb(tb)) or "/repo/vectorbt/" in str(sys.exc_info()[1])


# what reading an object raises when it is not what the library returns on the unchanged tree
UNREADABLE = (TypeError, ValueError, LookupError, AttributeError, AssertionError, ArithmeticError)


def main(pid, fn, level="model_checking", workers=None):
    try:
        ck = Check(pid, level)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    ret = None
    try:
        if ck.worker:
            ret = workers[ck.worker](ck)
        else:
            fn(ck)
    except Machinery:
        traceback.print_exc()
        if not ck.viol:
            sys.exit(2)
    except Exception as e:
        traceback.print_exc()
        if in_repo(sys.exc_info()[2]):
            ck.violation("unexpected exception from the library", {"exc": repr(e), "tb": traceback.format_exc()})
        elif ck.worker and isinstance(e, UNREADABLE):
            ck.violation("what the library returned cannot be read", {"exc": repr(e), "tb": traceback.format_exc()})
        elif not ck.viol:
            sys.exit(2)
    if ck.worker:
        with open(ck.worker_out, "w") as f:
            json.dump({"viol": json.loads(json.dumps(ck.viol[:200], default=str)), "parts": ck.parts, "samples": ck.samples,
                       "traces": ck.traces, "ret": ret, "seen": ck.findings_seen}, f)
        sys.exit(0)
    sys.exit(ck.finish())
