"""P10: mapped arrays and records."""
import json, os, warnings
import numpy as np
from vb import main
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OneUnit SortKeeps RankKeeps TableExact SelectAll\nCONSTANTS NC = %d MaxE = %d MaxOps = %d Groupings = %s\n"
JOBS = 3


def run(ck):
    ws = [ck.start("histories", arg=str(i)) for i in range(JOBS)]
    jit = ck.start("compiled", jit=True) if ck.thorough else None
    rng = np.random.default_rng(ck.seed)
    todo = []
    for nc, me, mo, g in [(2, 2, 1, "TRUE")] + ([(3, 1, 2, "TRUE"), (1, 3, 2, "FALSE")] if ck.thorough else []):
        r = ck.model("RecsMC", CFG % (nc, me, mo, g), name=f"{nc}-{me}-{mo}", workers=6, heap="8g", timeout=800)
        lim = 9000 if ck.thorough else 1100
        out = [r.out[i] for i in sorted(rng.choice(len(r.out), min(lim, len(r.out)), replace=False))]
        ck.sample(out[-1])
        for j in range(JOBS):
            f = os.path.join(ck.scratch, f"m{nc}{me}{mo}{j}.json")
            json.dump(out[j::JOBS], open(f, "w"))
            todo.append(ck.start("replay", arg=f))
    cases = [c for w in ws for c in ck.join(w)] + (ck.join(jit) if jit else [])
    ck.validate("RecsTrace", cases, workers=6, done=True)
    for q in todo:
        ck.traces += ck.join(q) or 0


def replay(ck):
    import ma
    warnings.simplefilter("ignore")
    out = json.load(open(ck.worker_arg))
    for t in out:
        got = ma.replay(t)
        ck.expect(got == t["obs"], "entries, reductions and tables after a chain of operations", {"behaviour": t, "got": got} if got != t["obs"] else None, part="RecsMC")
    return len(out)


def histories(ck):
    import ma
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 10 + 100 * int(ck.worker_arg))
    return [ma.history(rng) for i in range(1200 if ck.thorough else 130)]


def compiled(ck):
    import ma
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 910)
    return [ma.history(rng) for i in range(300)]


if __name__ == "__main__":
    main("P10", run, workers={"histories": histories, "replay": replay, "compiled": compiled})
