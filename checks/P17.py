"""P17: column grouping and indexing of wrappers."""
import json, os, warnings
import numpy as np
from vb import main
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Partition Aligned GroupsAreCols\nCONSTANTS NC = %d MaxPick = %d MaxOps = %d\n"


def run(ck):
    w = ck.start("histories")
    todo = []
    for nc, mp, mo in [(3, 3, 2), (4, 3, 1)] + ([(3, 2, 3), (4, 4, 2)] if ck.thorough else []):
        r = ck.model("GroupingMC", CFG % (nc, mp, mo), name=f"{nc}-{mp}-{mo}", workers=6)
        out = r.out
        if len(out) > 60000:
            out = [out[i] for i in sorted(np.random.default_rng(ck.seed).choice(len(out), 60000, replace=False))]
        f = os.path.join(ck.scratch, f"h{nc}{mp}{mo}.json")
        json.dump({"nc": nc, "out": out}, open(f, "w"))
        ck.sample(out[0])
        todo.append(ck.start("replay", arg=f))
    cases = ck.join(w)
    ck.validate("GroupingTrace", cases, workers=6, done=True)
    ck.sample(cases[0]["ops"][0])
    for q in todo:
        ck.traces += ck.join(q) or 0


def replay(ck):
    import gr
    warnings.simplefilter("ignore")
    d = json.load(open(ck.worker_arg))
    for t in d["out"]:
        got = gr.replay(t, d["nc"])
        ck.expect(got == t["view"], "rows, columns and groups after a selection", {"behaviour": t, "got": got} if got != t["view"] else None, part="GroupingMC")
    return len(d["out"])


def histories(ck):
    import gr
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 17)
    return [gr.history(rng) if i % 4 else gr.groupers(rng) for i in range(8000 if ck.thorough else 800)]


if __name__ == "__main__":
    main("P17", run, workers={"histories": histories, "replay": replay})
