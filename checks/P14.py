"""P14: operations along series."""
import json, os, warnings
import numpy as np
from vb import main
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Between Whole Smooth Inverse Alternate\nPROPERTIES Causal\nCONSTANTS N = %d\nValues = {%s}\nMaxW = %d\n"


def run(ck):
    w = [ck.start("histories", arg=str(i)) for i in range(2)]
    if ck.thorough:
        w.append(ck.start("histories", jit=True, arg="9"))
    seen, todo = ck.start("outside"), []
    for n, vals, mw in [(5, '"1", "2", "4", "nan"', 3)] + ([(6, '"1", "3", "nan"', 4)] if ck.thorough else []):
        r = ck.model("RollingMC", CFG % (n, vals, mw), name=f"len{n}", workers=6, heap="8g", timeout=700)
        ck.sample(r.out[-1])
        f = os.path.join(ck.scratch, f"series{n}.json")
        json.dump(r.out, open(f, "w"))
        todo += [ck.start("series", arg=f)] + ([ck.start("series", jit=True, arg=f)] if ck.thorough else [])
    ck.validate("RollingTrace", [c for q in w for c in ck.join(q)], workers=6, done=True)
    if ck.join(seen):
        ck.expect(ck.known_hit("P14-matrix-outside"), "a missing value outside the window of a rolling matrix function matters", None, part="outside")
    for q in todo:
        ck.traces += ck.join(q) or 0


def series(ck):
    import ro
    warnings.simplefilter("ignore")
    rows = json.load(open(ck.worker_arg))
    ops = next(r["ops"] for r in rows if "ops" in r)
    byn, n = {}, 0
    for t in rows:
        if "x" in t:
            byn.setdefault(len(t["x"]), []).append(t)
    for todo in byn.values():
        for o, bad, got, want in ro.exhaust(ops, todo):
            for j in np.flatnonzero(bad)[:5]:
                ck.expect(False, f"{o['op']} {o.get('f', '')}", {"op": o, "x": todo[j]["x"], "got": got[j].tolist(), "want": want[j].tolist()}, part="RollingMC")
        n += len(todo)
        ck.expect(True, "operations on every short series", None, part="RollingMC")
    return n


def outside(ck):
    """A rolling function of the whole matrix: the row before the window must not matter."""
    import ro, pandas as pd
    warnings.simplefilter("ignore")
    r = [pd.DataFrame([[x, 1.0], [1.0, 1.0], [np.nan, 2.0]]).vbt.rolling_apply(2, ro.sum_m, on_matrix=True).values[2] for x in (np.nan, 0.0)]
    seen = not np.array_equal(r[0], r[1], equal_nan=True)
    r = [pd.DataFrame([[x, 1.0], [1.0, 1.0], [3.0, 2.0]]).vbt.rolling_apply(2, ro.sum_m, on_matrix=True).values[2] for x in (5.0, 0.0)]
    ck.expect(np.array_equal(r[0], r[1]), "a row outside the window of a rolling matrix function matters", r, part="outside")
    return seen


def histories(ck):
    import ro
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 14 + 100 * int(ck.worker_arg))
    return [ro.history(rng) for _ in range(2000 if ck.thorough else 250)]


if __name__ == "__main__":
    main("P14", run, workers={"histories": histories, "series": series, "outside": outside})
