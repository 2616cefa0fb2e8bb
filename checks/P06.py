"""P06: what a portfolio derives from its order records."""
import numpy as np
from vb import main


def run(ck):
    ws = [[ck.start("sims", arg=k) for k in ("orders", "signals", "funcs")]] + ([[ck.start("sims_jit", jit=True, arg="orders")]] if ck.thorough else [])
    model(ck)
    for k, w in enumerate(ws):
        cases = [x for q in w for x in ck.join(q)]
        ck.validate("ReconstructTrace", cases, name="ReconstructTrace " + ("sims", "sims_jit")[k], workers=6, done=True)
        ck.sample(cases[0]["ord"])
        ck.sample(cases[0]["views"][0]["totals"])


CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS CashIsMoved AssetsAreBought FreeCash DebtIffShort SidesSplit Batch
CONSTANTS
 NB = 2
 Sizes = {"1", "2"%s}
 Prices = {"2", "4"}
 FeeSet = {%s}
"""


def model(ck):
    """Every short order sequence, given to the library as order records of one column each."""
    r = ck.model("ReconstructMC", CFG % ((', "3/2"', '"0", "1/2"') if ck.thorough else ("", '"0", "1/2"')), workers=6)
    todo = r.out if ck.thorough else [r.out[i] for i in np.random.default_rng(ck.seed).permutation(len(r.out))[:6000]]
    w = ck.start("replay", arg=put(ck, todo))
    n = ck.join(w)
    ck.traces += n
    ck.parts["ReconstructMC"]["replayed"] = n
    ck.sample(todo[0])


def put(ck, x):
    import json, os
    f = os.path.join(ck.scratch, "todo.json")
    json.dump(x, open(f, "w"))
    return f


def replay(ck):
    import json
    import pandas as pd
    import vectorbt as vbt
    from vectorbt.portfolio.enums import order_dt
    from vb import fl, same
    todo = json.load(open(ck.worker_arg))
    n = len(todo)
    nb = len(todo[0][1])
    recs = np.zeros(sum(len(o) for o, _ in todo), dtype=order_dt)
    k = 0
    for x, (os_, _) in enumerate(todo):
        for o in os_:
            recs[k]["id"], recs[k]["col"], recs[k]["idx"] = k, x, o["i"] - 1
            recs[k]["size"], recs[k]["price"], recs[k]["fees"], recs[k]["side"] = fl(o["size"]), fl(o["price"]), fl(o["fees"]), int(o["side"] == "Sell")
            k += 1
    close = np.tile(np.array([[2.0], [5.0], [3.0], [4.0]])[:nb], (1, n))
    from vectorbt.portfolio.enums import log_dt
    p = vbt.Portfolio(vbt.ArrayWrapper.from_obj(pd.DataFrame(close), freq="D"), pd.DataFrame(close), recs, np.empty(0, dtype=log_dt), 10.0 * np.ones(n), False)
    ser = [p.assets(), p.cash_flow(), p.cash_flow(free=True), p.cash() - 10, p.cash(free=True) - 10, p.asset_value(),
           p.asset_flow(direction="longonly"), p.asset_flow(direction="shortonly")]
    names = ["assets", "cash flow", "free cash flow", "cash", "free cash", "asset value", "long asset flow", "short asset flow"]
    for s, name, q in zip(ser, names, range(8)):
        a = s.values
        for x, (os_, h) in enumerate(todo):
            for i in range(nb):
                if not same(a[i, x], fl(h[i][q]), 1e-9, 1e-9):
                    ck.expect(False, name + " as in the model", {"orders": os_, "bar": i + 1, "got": float(a[i, x]), "want": h[i][q]}, part="ReconstructMC")
                    break
    return n


def sims(ck, jit=False):
    import rc
    kind = ck.worker_arg
    rng = np.random.default_rng(ck.seed * 1000 + 6 + jit + 100 * len(kind))
    make = {"orders": rc.from_orders, "signals": rc.from_signals, "funcs": rc.from_funcs}[kind]
    out = [make(rng, jit) for _ in range((1500 if jit else 4000) if ck.thorough else 300)]
    return out


def sims_jit(ck):
    return sims(ck, True)


if __name__ == "__main__":
    main("P06", run, workers={"sims": sims, "sims_jit": sims_jit, "replay": replay})
