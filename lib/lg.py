"""Recorded ledgers: histories of requests and the order and log records of the same simulation."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vb import num, nums
import pf, sig, cb


def hist_of_log(e, asked=None, log=True):
    return {"i": e["i"] + 1, "col": e["col"] + 1, "o": asked or e["o"], "b": e["b"], "r": e["a"][:6], "a": e["a"][6:] + e["n"], "log": bool(log)}


def counts(p):
    o, g = p.orders, p.logs
    c = lambda x: int(len(x.values))
    return {"buy": c(o.buy), "sell": c(o.sell), "filled": c(g.filled), "ignored": c(g.ignored), "rejected": c(g.rejected)}


def ledger(p, hist, close, groups, sharing, init, all_, ocap=10 ** 6, lcap=10 ** 6, refused=False):
    t, n = np.shape(close)
    groups = groups or [1] * n
    # cash groups for simulations over groups: numbered by group; otherwise a group is a column
    gof = [int(x) + 1 for x in np.repeat(np.arange(len(groups)), groups)]
    units = gof if sharing else list(range(1, n + 1))
    d = {"n": n, "t": t, "init": nums(np.broadcast_to(init, max(units))), "unit": units, "group": gof if sharing else None, "close": [nums(r) for r in close],
         "hist": hist, "all": all_, "ocap": ocap, "lcap": lcap, "refused": refused, "ords": [], "logs": [], "sorted": [],
         "counts": {"buy": 0, "sell": 0, "filled": 0, "ignored": 0, "rejected": 0}}
    d["group"] = gof if sharing else list(range(1, n + 1))
    if p is not None:
        d["ords"] = [pf.order_event(r) for r in p.orders.values]
        d["logs"] = [pf.log_event(r) for r in p.logs.values]
        v = p.orders.values
        s = v[np.lexsort((v["id"], v["col"]))] if len(v) == 0 else p.orders.sort(incl_id=True).values
        d["sorted"] = [[int(r["id"]), int(r["col"]), int(r["idx"])] for r in s]
        d["counts"] = counts(p)
    return d


def asked(full, i, x):
    return [num(full["size"][i, x]), pf.STYPES[int(full["size_type"][i, x])], pf.DIRS[int(full["direction"][i, x])], num(full["price"][i, x]),
            num(full["fees"][i, x]), num(full["fixed_fees"][i, x]), num(full["slippage"][i, x]), num(full["min_size"][i, x]),
            num(full["max_size"][i, x]), num(full["size_granularity"][i, x]), num(full["reject_prob"][i, x]),
            bool(full["lock_cash"][i, x]), bool(full["allow_partial"][i, x])]


def variants(rng, fn, kw, close, groups, sharing, init, hist, all_):
    """The same simulation with other logging and other room for its records."""
    out = []
    t, n = np.shape(close)
    m = rng.random((t, n)) < rng.choice([0.3, 0.7])
    h2 = [dict(h, log=bool(m[h["i"] - 1, h["col"] - 1])) for h in hist]
    filled, logged = sum(h["r"][0] == "Filled" for h in hist), sum(h["log"] for h in h2)
    kw2 = dict(kw, log=m)
    out.append(ledger(fn(**kw2), h2, close, groups, sharing, init, all_))
    ocap, lcap = filled + int(rng.integers(-1, 2)), logged + int(rng.integers(-1, 2))
    if not m.any():
        lcap = 1
    if ocap >= 1 and lcap >= 1:
        try:
            p = fn(**dict(kw2, max_orders=ocap, max_logs=lcap))
        except IndexError:
            p = None
        out.append(ledger(p, h2, close, groups, sharing, init, all_, ocap, lcap, p is None))
    return out


def orders(rng):
    kw, full = pf.rand_orders_kwargs(rng)
    if (full["reject_prob"] == 0.5).any():
        full["reject_prob"] = np.zeros(full["shape"])
        kw["reject_prob"] = 0.0
    p = vbt.Portfolio.from_orders(**kw)
    sh = bool(kw.get("cash_sharing", False))
    hist = [hist_of_log(e, asked(full, e["i"], e["col"])) for e in (pf.log_event(r) for r in p.logs.values)]
    out = [ledger(p, hist, full["close"], full["groups"], sh, full["init_cash"], True)]
    if full["cs"] != "random" and rng.random() < 0.6:
        out += variants(rng, vbt.Portfolio.from_orders, kw, full["close"], full["groups"], sh, full["init_cash"], hist, True)
    return out


def signals(rng):
    kw, full = sig.rand_signals(rng, stops=bool(rng.random() < 0.4))
    kw["log"] = True
    if "reject_prob" in kw:
        kw["reject_prob"] = 0.0
    p = vbt.Portfolio.from_signals(**kw)
    sh = bool(kw.get("cash_sharing", False))
    g = [int(x) for x in p.wrapper.grouper.get_group_lens()] if p.wrapper.grouper.is_grouped() else None
    hist = [hist_of_log(e) for e in (pf.log_event(r) for r in p.logs.values)]
    out = [ledger(p, hist, full["close"], g, sh, full["init_cash"], False)]
    if full["cs"] != "random" and rng.random() < 0.6:
        out += variants(rng, vbt.Portfolio.from_signals, kw, full["close"], g, sh, full["init_cash"], hist, False)
    return out


def funcs(rng):
    while True:
        pr = cb.program(rng)
        p, buf, err = cb.simulate(pr)
        if not err:
            break
    ev = cb.case(pr, p, buf, err)["ev"]
    hist, o = [], None
    for e in ev:
        if e["k"] == "order":
            o = e
        elif e["k"] == "postOrder":
            hist.append({"i": e["i"], "col": e["col"] + 1, "o": o["o"], "b": e["b"], "r": e["r"], "a": e["now"][:6], "log": o["log"]})
    d = ledger(p, hist, pr["close"], pr["groups"], pr["sharing"], pr["init"], False)
    gof = [int(x) + 1 for x in np.repeat(np.arange(len(pr["groups"])), pr["groups"])]
    d["group"] = gof
    return [d]
