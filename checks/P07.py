"""P07: trades and positions."""
import json, os
import numpy as np
from vb import main, fl, same

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ProfitOfColumn SidesOK ConservedInv StatusInv
CONSTANTS
 N = %d
 Sizes = {%s}
 Prices = {%s}
 FeeSet = {"1/2"%s}
 Last = "3"
"""


def run(ck):
    ws = [ck.start("sims")] + ([ck.start("sims_jit", jit=True)] if ck.thorough else [])
    r = ck.model("TradesMC", CFG % ((4, '"1", "2", "3"', '"2", "4"', "") if ck.thorough else (4, '"1", "2"', '"2", "4"', "")), workers=6)
    more = ck.model("TradesMC", CFG % (5, '"1", "2"', '"2"', "") if ck.thorough else CFG % (3, '"1", "2", "3"', '"2", "4"', ', "0"'),
                    name="TradesMC other catalogue", workers=6)
    todo = r.out + more.out
    todo = [todo[i] for i in np.random.default_rng(ck.seed).permutation(len(todo))[:60000 if ck.thorough else 6000]]
    f = os.path.join(ck.scratch, "todo.json")
    json.dump(todo, open(f, "w"))
    n = ck.join(ck.start("replay", arg=f))
    ck.traces += n
    ck.parts["TradesMC"]["replayed"] = n
    ck.sample(todo[0])
    for w in ws:
        cases = ck.join(w)
        ck.validate("TradesTrace", cases, name="TradesTrace " + w[0], workers=6, done=True)
        ck.sample(cases[0]["en"][:2])


def replay(ck):
    import tr
    todo = json.load(open(ck.worker_arg))
    by = {}
    for o in todo:
        by.setdefault((len(o[0]) + 1) // 2, []).append(o)
    for nb, os_ in by.items():
        close = np.full((nb, len(os_)), 3.0)
        p = tr.portfolio([o[0] for o in os_], close)
        pos = 0
        base = {"en": 0, "ex": 0, "ps": 0}
        got = {"en": tr.recs(p.entry_trades), "ex": tr.recs(p.exit_trades), "ps": tr.recs(p.positions)}
        for x, o in enumerate(os_):
            for q, key in enumerate(("en", "ex", "ps")):
                want = o[q + 1]
                g = got[key][base[key]:base[key] + len(want)]
                ok = len(g) == len(want) and all(
                    r["id"] == base[key] + k and r["col"] == x + 1 and r["ei"] == w["ei"] and r["xi"] == w["xi"] and r["dir"] == w["dir"]
                    and r["open"] == w["open"] and r["parent"] == pos + w["parent"]
                    and all(same(fl(a), fl(b), 1e-9, 1e-9) for a, b in zip(r["v"], (w["size"], w["ep"], w["ef"], w["xp"], w["xf"])))
                    for k, (r, w) in enumerate(zip(g, want)))
                ck.expect(ok, {"en": "entry trades", "ex": "exit trades", "ps": "positions"}[key] + " are those of the model",
                          {"orders": o[0], "want": want, "got": g}, part="TradesMC")
                base[key] += len(want)
            pos += len(o[3])
        for key in base:
            ck.expect(len(got[key]) == base[key], "no other records than the model's", {"kind": key}, part="TradesMC")
    return len(todo)


def sims(ck, jit=False):
    import rc, tr
    rng = np.random.default_rng(ck.seed * 1000 + 7 + jit)
    seen = []
    keep = lambda p, close, groups, sharing, *a: seen.append(tr.record(p, close, groups if groups else None, rng))
    rc.record = keep
    for _ in range((800 if jit else 4000) if ck.thorough else 250):
        rc.from_orders(rng, jit)
        if not jit:
            rc.from_signals(rng)
            rc.from_funcs(rng)
            seen.append(tr.hand_made(rng))
    return seen


def sims_jit(ck):
    return sims(ck, True)


if __name__ == "__main__":
    main("P07", run, workers={"sims": sims, "sims_jit": sims_jit, "replay": replay})
