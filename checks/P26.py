"""P26: tables of statistics."""
import json, os
import numpy as np
from vb import main

TABLES = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS IsTable Unique IsPart
PROPERTY Settles
CONSTANT Wide = %s
"""
STATS = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Independent IsPart Labelled One1
CONSTANTS
 Most = %d
 Kinds = {%s}
"""
HEIRS = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
PROPERTIES Local Heirs
CONSTANT Steps = %d
"""


def run(ck):
    w = ck.start("toys")
    qs = []

    def send(name, xs, n):
        for i in range(n):
            f = os.path.join(ck.scratch, "%s%d.json" % (name, i))
            json.dump(xs[i::n], open(f, "w"))
            qs.append(ck.start(name, arg=f))
    r = ck.model("TablesMC", TABLES % ("TRUE" if ck.thorough else "FALSE"), workers=6, timeout=800)
    xs = list({json.dumps(x, sort_keys=True): x for x in r.out}.values())
    ck.sample(xs[0])
    rng = np.random.default_rng(ck.seed)
    if not ck.thorough:
        xs = [xs[i] for i in rng.permutation(len(xs))[:420]]
    send("shipped", xs, 4)
    r = ck.model("StatsMC", STATS % (3 if ck.thorough else 2, "1, 2, 3"), workers=6, timeout=800)
    xs = r.out if len(r.out) < 4000 or ck.thorough else [r.out[i] for i in rng.permutation(len(r.out))[:1500]]
    send("replay", xs, 2)
    r = ck.model("HeirMC", HEIRS % (4 if ck.thorough else 3), workers=6, timeout=800)
    # one copy at least: without one there is nothing to live on in
    xs = [x for x in r.out if any(y["o"]["op"] == "copy" for y in x[:-1] if y)]
    send("heirs", [xs[i] for i in rng.permutation(len(xs))[:6000 if ck.thorough else 400]], 2)
    cs = ck.join(w)
    ck.validate("StatsTrace", cs, workers=6, done=True)
    ck.sample(cs[0])
    for q in qs:
        ck.traces += ck.join(q) or 0


def toys(ck):
    import st
    rng = np.random.default_rng(ck.seed * 1000 + 26)
    return [st.rcase(rng) for _ in range(8000 if ck.thorough else 900)]


def heirs(ck):
    import hr
    xs = json.load(open(ck.worker_arg))
    rng = np.random.default_rng(ck.seed * 1000 + 262)
    for i, x in enumerate(xs):
        bad = hr.run(hr.KINDS[i % len(hr.KINDS)], x, rng, ck.scratch)
        ck.expect(bad is None, "metrics and subplots live on in what is made of an object, and nowhere else", bad, part="HeirMC")
    return len(xs)


def replay(ck):
    import st
    xs = json.load(open(ck.worker_arg))
    for x in xs:
        got = st.table(x["o"], x["c"])
        ck.expect(got == x["want"], "a table of statistics is what the model says", {"o": x["o"], "c": x["c"], "want": x["want"], "got": got}, part="StatsMC")
    return len(xs)


def shipped(ck):
    import tb
    xs = json.load(open(ck.worker_arg))
    n = 0
    for s in range(4 if ck.thorough else 1):
        objs = tb.Objects(ck.seed * 10 + s)
        rng = np.random.default_rng([ck.seed, s])
        for x in xs:
            n += 1
            for clause, detail in tb.compare(objs, x, rng):
                ck.expect(False, clause, detail, part="TablesMC")
    return n


if __name__ == "__main__":
    main("P26", run, workers={"heirs": heirs, "toys": toys, "replay": replay, "shipped": shipped})
