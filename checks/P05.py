"""P05: simulations driven by user functions (group-wise, row-wise, flexible)."""
import itertools
import numpy as np
from vb import main, num
import vb


def run(ck):
    ws = [ck.start("sims")]
    ws += [ck.start("sims_jit", jit=True, arg=a) for a in ("gn", "rn", "gf", "rf")]
    schedule(ck)
    cases = ck.join(ws[0])
    ck.validate("CallbacksTrace", cases, name="CallbacksTrace", workers=6, done=True)
    ck.sample([e["k"] for e in cases[0]["ev"]])
    ck.sample(cases[0]["ev"][3])
    more = [c for w in ws[1:] for c in ck.join(w)]
    ck.validate("CallbacksTrace", more, name="CallbacksTrace compiled", workers=6, done=True)


CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Nested
"""


def schedule(ck):
    """Every schedule of the model on small shapes, replayed."""
    import cb
    r = ck.model("CallbacksMC", CFG + "CONSTANTS\n T = %d\n Picks = %d\n" % ((2, 2) if ck.thorough else (2, 1)), name="CallbacksMC", workers=6)
    rng = np.random.default_rng(ck.seed)
    todo = r.out if ck.thorough else [r.out[i] for i in rng.permutation(len(r.out))[:1500]]
    for o in todo:
        prog, calls = o
        glens = prog["groups"]
        pr = cb.program(rng, n=sum(glens), t=prog["t"], row=prog["row"], flex=prog["flex"])
        pr.update(groups=glens, grouped=True, sharing=bool(rng.random() < 0.5), callpre=prog["callpre"], callpost=prog["callpost"],
                  mask=np.array(prog["mask"]), cset=np.zeros((prog["t"], len(glens)), dtype=int), vset=np.full((prog["t"], sum(glens)), -1.0))
        pr["init"] = np.full(len(glens) if pr["sharing"] else sum(glens), 100.0)
        pr["tab"][:, :, 1], pr["tab"][:, :, 2], pr["tab"][:, :, 3] = 0, 2, np.inf
        pr["close"] = np.nan_to_num(pr["close"], nan=3.0)
        cols = np.full((prog["t"], len(glens), 4), -1)
        for i, row in enumerate(prog["picks"]):
            for g, ps in enumerate(row):
                for k, x in enumerate(ps):
                    cols[i, g, k] = x - 1
        pr["cols"] = cols
        p, buf, err = cb.simulate(pr)
        got = [[cb.KIND[int(e[0])], int(e[1]) + 1, int(e[2]) + 1, (int(e[3]) if int(e[0]) != 8 or not prog["flex"] else int(e[cb.HEAD + 21])) + 1
                if int(e[0]) >= 8 else 0] for e in buf]
        ck.expect(not err and got == calls, "functions are called as in the model", lambda: {"program": prog, "got": got, "want": calls, "err": err},
                  part="CallbacksMC")
    ck.traces += len(todo)
    ck.parts["CallbacksMC"]["replayed"] = len(todo)
    ck.sample(todo[0])


def sims(ck):
    import cb
    rng = np.random.default_rng(ck.seed * 1000 + 5)
    out = []
    for _ in range(2500 if ck.thorough else 420):
        pr = cb.program(rng)
        out.append(cb.case(pr, *cb.simulate(pr)))
    return out


def sims_jit(ck):
    import cb
    a = ck.worker_arg
    rng = np.random.default_rng(ck.seed * 1000 + 50 + len(a) + ord(a[0]) + ord(a[1]))
    out = []
    for _ in range(400 if ck.thorough else 60):
        pr = cb.program(rng, n=int(rng.integers(2, 5)), t=int(rng.integers(2, 6)), row=a[0] == "r", flex=a[1] == "f")
        out.append(cb.case(pr, *cb.simulate(pr, jit=True)))
    return out


if __name__ == "__main__":
    main("P05", run, workers={"sims": sims, "sims_jit": sims_jit})
