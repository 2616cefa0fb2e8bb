"""P08: order and log records."""
import json, os
import numpy as np
from vb import main

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Inv Complete
CONSTANTS
 Kinds = {"fill", "ignore", "reject"}
"""


def run(ck):
    w = ck.start("sims")
    r = ck.model("LedgerMC", CFG, workers=6)
    todo = r.out if ck.thorough else [r.out[i] for i in np.random.default_rng(ck.seed).permutation(len(r.out))[:1600]]
    f = os.path.join(ck.scratch, "todo.json")
    json.dump(todo, open(f, "w"))
    q = ck.start("replay", arg=f)
    cases = ck.join(w)
    ck.validate("LedgerTrace", cases, workers=6, done=True)
    ck.sample(cases[0]["hist"][0])
    n = ck.join(q)
    ck.traces += n
    ck.parts["LedgerMC"]["replayed"] = n
    ck.sample(todo[0])
    if ck.thorough:
        cases = ck.join(ck.start("sims_jit", jit=True))
        ck.validate("LedgerTrace", cases, name="LedgerTrace compiled", workers=6, done=True)


def replay(ck):
    import vectorbt as vbt
    import pandas as pd
    from vectorbt.portfolio import nb
    todo = json.load(open(ck.worker_arg))
    close = pd.DataFrame(np.full((2, 2), 4.0))

    def order_func(c, kind, log):
        k = kind[c.i, c.col]
        if k == 2:
            return nb.order_nb(np.nan, 4.0, log=log[c.i, c.col])
        return nb.order_nb(1.0, 4.0, reject_prob=1.0 if k == 1 else 0.0, log=log[c.i, c.col])

    ORD = {"byColumn": [(0, 0), (1, 0), (0, 1), (1, 1)], "byBar": [(0, 0), (0, 1), (1, 0), (1, 1)]}
    for k, (mode, caps, prog, l) in enumerate(todo):
        kind, log = np.zeros((2, 2), dtype=int), np.zeros((2, 2), dtype=bool)
        for (i, x), (kd, lg) in zip(ORD[mode], prog):
            kind[i, x], log[i, x] = {"fill": 0, "reject": 1, "ignore": 2}[kd], lg
        lcap = max(caps[1], 1)
        way = ("orders", "func", "flex")[k % 3]
        try:
            if way == "orders":
                kw = dict(group_by=True, cash_sharing=True) if mode == "byBar" else {}
                p = vbt.Portfolio.from_orders(close, np.where(kind == 2, np.nan, 1.0), reject_prob=(kind == 1).astype(float), log=log,
                                              max_orders=caps[0], max_logs=lcap, seed=1, **kw)
            elif way == "func":
                p = vbt.Portfolio.from_order_func(close, order_func, kind, log, row_wise=mode == "byBar", use_numba=False,
                                                  max_orders=caps[0], max_logs=lcap, seed=1)
            else:
                def flex(c, kind, log):
                    if c.call_idx >= c.group_len:
                        return -1, nb.order_nothing_nb()
                    col = c.from_col + c.call_idx
                    kd = kind[c.i, col]
                    return col, nb.order_nb(np.nan if kd == 2 else 1.0, 4.0, reject_prob=1.0 if kd == 1 else 0.0, log=log[c.i, col])
                p = vbt.Portfolio.from_order_func(close, flex, kind, log, flexible=True, row_wise=mode == "byBar", use_numba=False,
                                                  max_orders=caps[0], max_logs=lcap, seed=1)
            refused = False
        except IndexError:
            refused = True
        if not ck.expect(refused == l["full"], "records that do not fit are refused, others are not",
                         {"way": way, "mode": mode, "caps": caps, "prog": prog, "refused": refused}, part="LedgerMC") or refused:
            continue
        o = [[int(r["id"]), int(r["idx"]) + 1, int(r["col"]) + 1] for r in p.orders.values]
        g = [[int(r["id"]), int(r["idx"]) + 1, int(r["col"]) + 1, int(r["order_id"])] for r in p.logs.values]
        ck.expect(o == [[r["id"], r["i"], r["col"]] for r in l["ords"]] and g == [[r["id"], r["i"], r["col"], r["oid"]] for r in l["logs"]],
                  "records are those of the model", {"way": way, "mode": mode, "prog": prog, "orders": o, "logs": g, "want": l}, part="LedgerMC")
    return len(todo)


def sims(ck):
    import lg
    rng = np.random.default_rng(ck.seed * 1000 + 8)
    out = []
    for _ in range(2500 if ck.thorough else 170):
        out += lg.orders(rng) + lg.signals(rng) + lg.funcs(rng)
    return out


def sims_jit(ck):
    import lg, pf
    import vectorbt as vbt
    rng = np.random.default_rng(ck.seed * 1000 + 80)
    out = []
    for _ in range(400):
        kw, full = pf.rand_orders_kwargs(rng, t=int(rng.integers(2, 9)), n=int(rng.integers(2, 5)))
        p = vbt.Portfolio.from_orders(**pf.uniform(kw, full))
        hist = [lg.hist_of_log(e, lg.asked(full, e["i"], e["col"])) for e in (pf.log_event(r) for r in p.logs.values)]
        out.append(lg.ledger(p, hist, full["close"], full["groups"], bool(kw.get("cash_sharing", False)), full["init_cash"], True))
    return out


if __name__ == "__main__":
    main("P08", run, workers={"sims": sims, "sims_jit": sims_jit, "replay": replay})
