"""P20: labels by what comes after."""
import json, os
import numpy as np
from vb import main
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Alternate Apart Extreme NeverOne Covered Agree\nPROPERTIES OnlyAhead\nCONSTANTS N = %d\nValues = {%s}\n"


def run(ck):
    w = [ck.start("histories", arg=str(i)) for i in range(2)]
    if ck.thorough:
        w.append(ck.start("histories", jit=True, arg="9"))
    todo = []
    for n, vals in VALS[:2 if ck.thorough else 1]:
        r = ck.model("LabelsMC", CFG % (n, vals), name=f"len{n}", workers=6, heap="8g", timeout=800)
        ck.sample(r.out[-1])
        f = os.path.join(ck.scratch, f"series{n}.json")
        json.dump(r.out, open(f, "w"))
        todo += [ck.start("series", arg=f)] + ([ck.start("series", jit=True, arg=f)] if ck.thorough else [])
    ck.validate("LabelsTrace", [c for q in w for c in ck.join(q)], workers=6, done=True)
    for q in todo:
        ck.traces += ck.join(q) or 0


def series(ck):
    import il
    rows = json.load(open(ck.worker_arg))
    ops = next(r["ops"] for r in rows if "ops" in r)
    byn, n = {}, 0
    for t in rows:
        if "x" in t:
            byn.setdefault(len(t["x"]), []).append(t)
    for todo in byn.values():
        for o, q, bad, got, want in il.exhaust(ops, todo, "labels"):
            for j in np.flatnonzero(bad)[:5]:
                ck.expect(False, o["op"], {"op": o, "output": q, "x": todo[j]["x"], "got": got[j].tolist(), "want": want[j].tolist()}, part="LabelsMC")
        n += len(todo)
        ck.expect(True, "every short series", None, part="LabelsMC")
    return n


def histories(ck):
    import il
    rng = np.random.default_rng(ck.seed * 1000 + 20 + 100 * int(ck.worker_arg))
    return [il.labelling(rng) for _ in range(2000 if ck.thorough else 200)]


VALS = [(5, '"4", "5", "6", "9"'), (7, '"4", "5", "7"')]
if __name__ == "__main__":
    main("P20", run, workers={"histories": histories, "series": series})
