"""P13: cleaning, ranking and ranges of signals."""
import json, os, warnings
import numpy as np
from vb import main


def run(ck):
    w = ck.start("histories")
    lens = "1, 2, 3, 4, 5, 6" if ck.thorough else "1, 2, 3, 4, 5"
    r = ck.model("SignalSeqMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Cleaned Ranked Covered\nCONSTANT Lens = {%s}\n" % lens, workers=6)
    f = os.path.join(ck.scratch, "pairs.json")
    json.dump(r.out, open(f, "w"))
    ck.sample(r.out[0])
    todo = [ck.start("pairs", arg=f)]
    if ck.thorough:
        todo.append(ck.start("pairs", jit=True, arg=f))
    cases = ck.join(w)
    ck.validate("SignalSeqTrace", cases, workers=6, done=True)
    ck.sample(cases[0]["ops"][0])
    for q in todo:
        ck.traces += ck.join(q) or 0


def pairs(ck):
    import sg
    warnings.simplefilter("ignore")
    byn = {}
    for t in json.load(open(ck.worker_arg)):
        byn.setdefault(len(t["a"]), []).append(t)
    n = 0
    for todo in byn.values():
        for want, got in zip(todo, sg.exhaust(todo)):
            p, q = want["avg"]
            av, want["avg"] = got.pop("avg"), 0
            ok = np.isnan(av) if q == 0 else abs(av - p / q) < 1e-12
            got["avg"] = 0
            ck.expect(got == want and ok, "what follows from a pair of signal arrays", {"want": want, "got": got, "avg": [p, q, av]} if got != want or not ok else None, part="SignalSeqMC")
            n += 1
    return n


def histories(ck):
    import sg
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 13)
    return [sg.history(rng) for _ in range(2500 if ck.thorough else 250)]


if __name__ == "__main__":
    main("P13", run, workers={"histories": histories, "pairs": pairs})
