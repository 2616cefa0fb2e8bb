"""P18: indicators over many parameters."""
import json, os, warnings
import numpy as np
from vb import main
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Same Untouched Local Picked Whole Count Pairs\nCONSTANTS MaxVals = %d\nValues = {%s}\nSizes = {%s}\nFull = %s\n"


def run(ck):
    n = 6 if ck.thorough else 2
    ws = [ck.start("cases", jit=True, arg=str(i)) for i in range(n)]
    r = ck.model("ParamsMC", CFG % ((3, "1, 2", "1, 2", "TRUE") if ck.thorough else (2, "1, 2", "2", "FALSE")), workers=6, timeout=800)
    ck.sample(r.out[-1])
    f = os.path.join(ck.scratch, "plans.json")
    json.dump(r.out, open(f, "w"))
    todo = [ck.start("plans", jit=True, arg=f)]
    ws += [ck.start("library", arg="plain")] + ([ck.start("library", jit=True, arg="jit")] if ck.thorough else [])
    cs = [x for w in ws for x in (ck.join(w) or [])]
    if cs:
        ck.validate("ParamsTrace", cs, workers=6, done=True)
        ck.sample(cs[0])
    for q in todo:
        ck.traces += ck.join(q) or 0


def plans(ck):
    import pm
    warnings.simplefilter("ignore")
    rows = json.load(open(ck.worker_arg))
    rows.sort(key=lambda r: json.dumps([r["g"], r["uniq"]], sort_keys=True))
    now = None
    for r in rows:
        key = (r["g"], r["uniq"])
        if key != now:
            now = key
            t = pm.plan(r["g"], r["uniq"])
            i0, op = pm.runop(t)
        i = i0
        ck.expect((i is None) == r["refused"], "refusal", {"g": r["g"]}, part="ParamsMC")
        if i is None or r["refused"]:
            continue
        for s in r["path"]:
            i = pm.select(t, i, s)
        got, want = pm.see(t, i), r["show"]
        for k in ("cx", "ix", "out", "ino", "x", "y", "maps"):
            ck.expect(got[k] == want[k], ("selection: " if r["path"] else "run: ") + k, {"g": r["g"], "path": r["path"], "got": got[k], "want": want[k]}, part="ParamsMC")
        if not r["path"]:
            ck.expect(all(a == x["a"]["v"] for x, a in zip(r["g"]["ino"], op["after"]) if x["given"]), "in-place outputs of the user", {"g": r["g"]}, part="ParamsMC")
    return len(rows)


def cases(ck):
    import pm
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 18 + 100 * int(ck.worker_arg))
    other = [n for n in pm.LIB if n.startswith("ta")]
    return [pm.case(rng) for _ in range(1000 if ck.thorough else 80)] + [pm.each(rng, other) for _ in range(60 if ck.thorough else 6)] + [pm.tree(rng) for _ in range(300 if ck.thorough else 30)]


def library(ck):
    import pm
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 518)
    jit = ck.worker_arg == "jit"
    names = [n for n in pm.LIB if not n.startswith("ta:")]
    if not jit:
        pm.compiled()
        return [pm.each(rng, names) for _ in range(500 if ck.thorough else 110)] + [pm.case(rng, "numba") for _ in range(200 if ck.thorough else 30)]
    # every one at least once
    pm.compiled()
    return [pm.each(rng, [n]) for n in names for _ in range(4)] + [pm.case(rng, "numba") for _ in range(12)]


if __name__ == "__main__":
    main("P18", run, workers={"cases": cases, "plans": plans, "library": library})
