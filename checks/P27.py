"""P27: applying, reducing and combining."""
import json, os
import numpy as np
from vb import main


CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Shaped Copies TwoWays Moves Alone Split Sides Leads Under Sieve Inert\nCONSTANTS D = %d\nMaxCells = %d\n"


def run(ck):
    ws = [ck.start("cases", arg=str(i)) for i in range(2)]
    r = ck.model("ApplyMC", CFG % ((3, 12) if ck.thorough else (2, 18)), workers=6, timeout=700)
    todo = [r.out[i] for i in np.random.default_rng(ck.seed).permutation(len(r.out))[:40000 if ck.thorough else 6000]]
    ck.sample(todo[0])
    q = []
    for k in range(2):
        f = os.path.join(ck.scratch, "chains%d.json" % k)
        json.dump(todo[k::2], open(f, "w"))
        q.append(ck.start("chains", arg=f))
    cases = [c for w in ws for c in ck.join(w)]
    ck.validate("ApplyTrace", cases, name="ApplyTrace", workers=6, done=True)
    ck.sample(cases[0])
    for w in q:
        ck.traces += ck.join(w) or 0


def chains(ck):
    import ap
    rng = np.random.default_rng(ck.seed)
    todo = json.load(open(ck.worker_arg))
    for b in todo:
        T_ = ap.Terms()
        x = ap.build(b["t0"], T_.put)
        for o, w in zip(b["ops"], b["ts"]):
            x, got = ap.carry(x, dict(o), T_, rng)
            ok = got["t"] == w
            ck.expect(ok, o["op"], {"chain": b, "op": o, "got": got["t"], "want": w}, part="ApplyMC")
            ck.expect(got["kept"], "an operation leaves its object as it was", {"chain": b, "op": o}, part="ApplyMC")
            if not ok:
                break
    return len(todo)


def cases(ck):
    import ap
    rng = np.random.default_rng(ck.seed * 1000 + 27 + 17 * int(ck.worker_arg))
    out = [ap.rcase(rng, op) for op in sorted(set(ap.OPS)) for _ in range(40 if ck.thorough else 6)]
    return out + [ap.rcase(rng) for _ in range(5000 if ck.thorough else 600)]


if __name__ == "__main__":
    main("P27", run, workers={"cases": cases, "chains": chains})
