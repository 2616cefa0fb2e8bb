"""P15: splitting into ranges and sets."""
import json, os
import numpy as np
from vb import main
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Sound Forward Grows SameLen Complete Apart AllAtOnce\nCONSTANTS MaxRows = %d\n"


def run(ck):
    w = [ck.start("histories", arg=str(i)) for i in range(2)]
    r = ck.model("SplitsMC", CFG % (9 if ck.thorough else 6), name="requests", workers=6, heap="8g", timeout=800)
    ck.sample(r.out[-1])
    f = os.path.join(ck.scratch, "requests.json")
    json.dump(r.out, open(f, "w"))
    todo = ck.start("requests", arg=f)
    ck.validate("SplitsTrace", [c for q in w for c in ck.join(q)], workers=6, done=True)
    ck.traces += ck.join(todo) or 0


def requests(ck):
    import sp
    rows = json.load(open(ck.worker_arg))
    for t in rows:
        got = sp.plain(t["o"])
        ck.expect((got is None) == t["refused"] and (got is None or got == t["out"]), "splits of " + t["o"]["kind"], {"request": t["o"], "got": got, "want": t["out"]}, part="SplitsMC")
    return len(rows)


def histories(ck):
    import sp
    rng = np.random.default_rng(ck.seed * 1000 + 15 + 100 * int(ck.worker_arg))
    return [sp.history(rng) for _ in range(3000 if ck.thorough else 250)]


if __name__ == "__main__":
    main("P15", run, workers={"histories": histories, "requests": requests})
