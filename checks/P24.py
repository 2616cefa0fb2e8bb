"""P24: configurations."""
import json, os
import numpy as np
from vb import main

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS
 Depth = %d
 Modes = {%s}
 Flags = {%s}
"""
EQ = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Reflexive Symmetric Finer
PROPERTY Congruent
CONSTANT Deep = %d
"""
FLAGS = ['{}', '{"nested"}', '{"frozen"}', '{"ro", "nested"}', '{"frozen", "nested", "conv"}', '{"attrs", "nested", "conv"}']


def run(ck):
    w = ck.start("programs")
    todo = []
    r = ck.model("DeepEqMC", EQ % (2 if ck.thorough else 1), workers=6, timeout=900)
    keep = list({json.dumps(x, sort_keys=True): x for x in r.out}.values())
    like = [x for x in keep if x["loose"]]
    if not ck.thorough:
        like, keep = ([xs[i] for i in np.random.default_rng(ck.seed).permutation(len(xs))[:4000]] for xs in (like, keep))
    f = os.path.join(ck.scratch, "pairs.json")
    json.dump(keep + like, open(f, "w"))
    todo.append(ck.start("pairs", arg=f))
    jobs = [(1, ("none", "shallow", "deep"), FLAGS), (2, ("none",), [FLAGS[1]])]
    if ck.thorough:
        jobs = [jobs[0]] + [(2, (m,), [f]) for m in ("none", "shallow", "deep") for f in FLAGS]
    for d, m, f in jobs:
        r = ck.model("ConfMC", CFG % (d, ", ".join('"%s"' % x for x in m), ", ".join(f)), name="ConfMC %d %s %s" % (d, m, len(f) > 1 or f[0]), workers=6, timeout=900)
        keep = r.out if len(r.out) < 4000 else [r.out[i] for i in np.random.default_rng(ck.seed).permutation(len(r.out))[:2500]]
        f = os.path.join(ck.scratch, "todo%d.json" % len(todo))
        json.dump(keep, open(f, "w"))
        todo.append(ck.start("replay", arg=f))
        ck.sample(keep[0]["prog"])
    cases = ck.join(w)
    ck.validate("ConfTrace", cases, workers=6, done=True)
    ck.sample(cases[0]["ops"])
    for q in todo:
        ck.traces += ck.join(q)


def replay(ck):
    import cf
    from vectorbt.utils.config import Config
    base = {"k": "dict", "items": [["a", {"k": "int", "v": 1}], ["b", {"k": "list", "items": [["0", {"k": "int", "v": 2}]]}],
                                   ["c", {"k": "dict", "items": [["a", {"k": "int", "v": 3}], ["b", {"k": "list", "items": [["0", {"k": "int", "v": 4}]]}]]}],
                                   ["d", {"k": "atomic", "items": [["a", {"k": "int", "v": 5}]]}]]}
    todo = json.load(open(ck.worker_arg))
    for b in todo:
        u = cf.lit(base)
        roots = [u, Config(u, **cf.args(b["prog"][0]))]
        for o, out in zip(b["prog"][1:], b["outs"]):
            new, err = cf.apply(roots, o, ck.scratch)
            roots += new
            got = cf.canon(roots)
            ok = err == out["err"] and got == cf.norm(out["c"]) and cf.attrs_ok(roots)
            if not ck.expect(ok, o["op"] + " does what the model says", {"prog": b["prog"], "op": o, "err": err, "want": out, "got": got}, part="ConfMC"):
                break
    return len(todo)


def pairs(ck):
    import de
    from vectorbt.utils.checks import is_deep_equal
    xs = json.load(open(ck.worker_arg))
    for x in xs:
        a, b = de.value(x["a"]), de.value(x["b"])
        got = {"loose": bool(is_deep_equal(a, b)), "exact": bool(is_deep_equal(a, b, check_exact=True))}
        ck.expect(got == {k: x[k] for k in got}, "deep equality of values", {"pair": x, "got": got}, part="DeepEqMC")
    return len(xs)


def programs(ck):
    import cf
    rng = np.random.default_rng(ck.seed * 1000 + 24)
    return [cf.rprogram(rng, ck.scratch) for _ in range(20000 if ck.thorough else 700)]


if __name__ == "__main__":
    main("P24", run, workers={"programs": programs, "replay": replay, "pairs": pairs})
