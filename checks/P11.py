"""P11: ranges and drawdowns of a series."""
import json, os, warnings
import numpy as np
from vb import main
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS RangesExact DrawdownsExact Accounted Deepest Stepwise\nCONSTANTS N = %d\nValues = {%s}\n"


def run(ck):
    w = [ck.start("histories", arg=str(i)) for i in range(2)]
    if ck.thorough:
        w.append(ck.start("histories", jit=True, arg="9"))
    todo = []
    for n, vals in [(5, '"0", "1", "2", "3", "nan"')] + ([(6, '"-1", "1", "2", "5", "nan"'), (8, '"1", "2", "nan"')] if ck.thorough else []):
        r = ck.model("EpisodesMC", CFG % (n, vals), name=f"len{n}", workers=6, heap="8g", timeout=700)
        ck.sample(r.out[-1])
        f = os.path.join(ck.scratch, f"series{n}.json")
        json.dump(r.out, open(f, "w"))
        todo += [ck.start("series", arg=f)] + ([ck.start("series", jit=True, arg=f)] if ck.thorough else [])
    ck.validate("EpisodesTrace", [c for q in w for c in ck.join(q)], workers=6, done=True)
    for q in todo:
        ck.traces += ck.join(q) or 0


def series(ck):
    import ep
    warnings.simplefilter("ignore")
    byn = {}
    for t in json.load(open(ck.worker_arg)):
        byn.setdefault(len(t["x"]), []).append(t)
    n = 0
    for k, todo in byn.items():
        for j, form in enumerate(("float", "bool", "int", "gap")):
            some = todo if j == 0 or len(todo) < 700 else todo[j::7]
            if form == "int":
                some = [t for t in some if "-1" not in t["x"]]
            for t, (ok, got) in zip(some, ep.exhaust(some, form)):
                ck.expect(ok, "what follows from a series", {"form": form, "want": t, "got": ep.strs({k: v for k, v in got.items() if k not in ("ranges", "draws")}), "recs": [got["ranges"], got["draws"]]} if not ok else None, part="EpisodesMC")
                n += 1
    return n


def histories(ck):
    import ep
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 11 + 100 * int(ck.worker_arg))
    return [ep.history(rng) for _ in range(1500 if ck.thorough else 170)]


if __name__ == "__main__":
    main("P11", run, workers={"histories": histories, "series": series})
