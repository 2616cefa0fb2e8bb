"""P09: selections and regroupings of a portfolio."""
import json, os, warnings
import numpy as np
from vb import main
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Partition Conserved Together\nCONSTANTS NC = %d MaxPick = %d MaxOps = %d\n"


def run(ck):
    ws = [ck.start("cases", arg=str(k)) for k in range(4)]
    todo = []
    for nc, mp, mo in [(3, 2, 2), (4, 3, 1)] + ([(3, 2, 3), (4, 4, 2)] if ck.thorough else []):
        r = ck.model("PfViewMC", CFG % (nc, mp, mo), name=f"{nc}-{mp}-{mo}", workers=4)
        out = r.out
        cap = 12000 if ck.thorough else 1200
        if len(out) > cap:
            out = [out[i] for i in sorted(np.random.default_rng(ck.seed).choice(len(out), cap, replace=False))]
        f = os.path.join(ck.scratch, f"h{nc}{mp}{mo}.json")
        json.dump({"nc": nc, "out": out}, open(f, "w"))
        ck.sample(out[0])
        todo.append(ck.start("replay", arg=f))
    cases = [x for w in ws for x in ck.join(w)]
    ck.validate("ReconstructTrace", cases, name="PfView", workers=6, done=True)
    ck.sample(cases[0]["ops"])
    for q in todo:
        ck.traces += ck.join(q) or 0


def replay(ck):
    import pv
    warnings.simplefilter("ignore")
    d = json.load(open(ck.worker_arg))
    bases = {}
    for t in d["out"]:
        got, want = pv.replay(t, d["nc"], bases), {k: t[k] for k in ("oks", "cols", "grp", "dims", "totals")}
        ck.expect(got == want, "columns, groups and totals after selections and regroupings", {"behaviour": t, "got": got} if got != want else None, part="PfViewMC")
    return len(d["out"])


def cases(ck):
    import pv
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 9 + 1000000 * int(ck.worker_arg))
    return [pv.case(rng) for _ in range(700 if ck.thorough else 60)]


if __name__ == "__main__":
    main("P09", run, workers={"cases": cases, "replay": replay})
