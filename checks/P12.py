"""P12: generation of entries and exits."""
import json, os, warnings
import numpy as np
from vb import main
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Alternate Between2 NoOverlap\nCONSTANTS What = \"%s\" N = %d MaxLen = 2\n"


def run(ck):
    w = ck.start("histories")
    n = 4
    for what in ("exits", "turns"):
        r = ck.model("SignalGenMC", CFG % (what, n), name=what, workers=6)
        out = [t for t in r.out if t["calls"]]
        rng = np.random.default_rng(ck.seed)
        top = 60000 if ck.thorough else 6000
        if len(out) > top:
            out = [out[i] for i in sorted(rng.choice(len(out), top, replace=False))]
        f = os.path.join(ck.scratch, what + ".json")
        json.dump({"n": n, "out": out}, open(f, "w"))
        ck.sample(out[0])
        ck.traces += ck.join(ck.start("replay", arg=f)) or 0
    cases = ck.join(w)
    ck.validate("SignalGenTrace", cases, workers=6, done=True)
    ck.sample(cases[0]["ops"][0])


def replay(ck):
    import sgen
    warnings.simplefilter("ignore")
    d = json.load(open(ck.worker_arg))
    k = 0
    for i, t in enumerate(d["out"]):
        for how in ["accessor"] + (["factory"] if i % 40 == 0 else []):
            want, got = sgen.replay(t, d["n"], how)
            ck.expect(want == got, "signals where a chooser puts them", {"behaviour": t, "how": how, "got": got} if want != got else None, part="SignalGenMC")
            k += 1
    return k


def histories(ck):
    import sgen
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 12)
    return [sgen.history(rng) for _ in range(1500 if ck.thorough else 400)]


if __name__ == "__main__":
    main("P12", run, workers={"histories": histories, "replay": replay})
