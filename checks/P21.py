"""P21: metrics of returns."""
import json, os, warnings
import numpy as np
from vb import main
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Restores Whole Depth Itself Tails\nPROPERTIES Causal\nCONSTANTS N = %d\nValues = {%s}\nWin2 = %d\nMinp2 = %d\n"


def run(ck):
    ws = [ck.start("cases", arg=str(i)) for i in range(2)]
    if ck.thorough:
        ws.append(ck.start("cases", jit=True, arg="9"))
    todo = []
    for n, vals, w, mp in [(4, '"-1/2", "0", "1/4", "nan"', 2, 1)] + ([(4, '"-1", "-1/2", "0", "1/8", "1/4", "nan"', 3, 2), (5, '"-1/2", "0", "1/4", "nan"', 3, 3)] if ck.thorough else []):
        r = ck.model("ReturnsMC", CFG % (n, vals, w, mp), name=f"len{n}-{w}", workers=6, timeout=700)
        ck.sample(r.out[-1])
        f = os.path.join(ck.scratch, f"series{n}{w}.json")
        json.dump(r.out, open(f, "w"))
        todo += [ck.start("short", arg=f)] + ([ck.start("short", jit=True, arg=f)] if ck.thorough else [])
    cs = [x for w in ws for x in ck.join(w)]
    ck.validate("ReturnsTrace", cs, workers=6, done=True)
    ck.sample(cs[0]["plain"])
    for q in todo:
        ck.traces += ck.join(q) or 0


def short(ck):
    import rt
    from vb import fl, same
    warnings.simplefilter("ignore")
    byn = {}
    rows = json.load(open(ck.worker_arg))
    for t in rows:
        byn.setdefault(len(t["x"]), []).append(t)
    for n, todo in byn.items():
        p, r, cum, dd = rt.exhaust(todo)
        for j, t in enumerate(todo):
            for a, f in enumerate(rt.M):
                w = t["m"][a]
                ck.expect(w == "any" or same(float(p[a][j]), fl(w), 1e-6, 1e-9), f, {"x": t["x"], "b": t["b"], "got": float(p[a][j]), "want": w}, part="ReturnsMC")
                ck.expect(all(w == "any" or same(float(g), fl(w), 1e-6, 1e-9) for g, w in zip(r[a][:, j], t["r"][a])), "rolling " + f, {"x": t["x"], "b": t["b"], "got": r[a][:, j].tolist(), "want": t["r"][a]}, part="ReturnsMC")
            ck.expect(all(same(float(g), fl(w), 1e-9, 1e-9) for g, w in zip(cum[:, j], t["cum"])), "cumulative", {"x": t["x"]}, part="ReturnsMC")
            ck.expect(all(same(float(g), fl(w), 1e-9, 1e-9) for g, w in zip(dd[:, j], t["dd"])), "drawdown", {"x": t["x"]}, part="ReturnsMC")
    return len(rows)


def cases(ck):
    import rt
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 21 + 100 * int(ck.worker_arg))
    return [x for _ in range(1500 if ck.thorough else 150) for x in rt.cases(rng, ck.worker_arg == "9")]


if __name__ == "__main__":
    main("P21", run, workers={"cases": cases, "short": short})
