"""Recorded portfolios for the Reconstruct specification: everything a portfolio derives from its order records."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vb import num, nums
import pf, sig, cb


def tab(x):
    a = np.asarray(x)
    if a.ndim == 1:
        a = a[:, None]
    return [nums(r) for r in a]


def row(x):
    return nums(np.atleast_1d(np.asarray(x, dtype=float)))


def mask(x):
    a = np.asarray(x)
    if a.ndim == 1:
        a = a[:, None]
    return [[bool(v) for v in r] for r in a]


def view(p, gby, lens, simulated, last):
    """Every per-unit series of the portfolio under one grouping."""
    to = np.cumsum(lens)
    k = dict(group_by=gby)
    ser = {"cf": tab(p.cash_flow(**k)), "ff": tab(p.cash_flow(free=True, **k)), "cash": tab(p.cash(**k)),
           "free": tab(p.cash(free=True, **k)), "av": tab(p.asset_value(**k)), "lav": tab(p.asset_value(direction="longonly", **k)),
           "sav": tab(p.asset_value(direction="shortonly", **k)), "val": tab(p.value(**k)), "ret": tab(p.returns(**k)),
           "aret": tab(p.asset_returns(**k)), "ge": tab(p.gross_exposure(**k)), "lge": tab(p.gross_exposure(direction="longonly", **k)),
           "sge": tab(p.gross_exposure(direction="shortonly", **k)), "ne": tab(p.net_exposure(**k)), "mask": mask(p.position_mask(**k)),
           "bval": tab(p.benchmark_value(**k)), "bret": tab(p.benchmark_returns(**k))}
    t = len(ser["cf"])
    return {"from": [int(x) for x in to - lens + 1], "to": [int(x) for x in to], "simulated": simulated, "last": last,
            "bars": [{f: s[i] for f, s in ser.items()} for i in range(t)],
            "totals": {"init": row(p.get_init_cash(**k)), "prof": row(p.total_profit(**k)), "fin": row(p.final_value(**k)),
                       "ret": row(p.total_return(**k)), "bret": row(p.total_benchmark_return(**k)), "cov": row(p.position_coverage(**k))}}


def lasts(p, t, n, units, cash):
    """Last logged account per bar and column, and per bar and unit."""
    cols = [[[] for _ in range(n)] for _ in range(t)]
    un = [[[] for _ in units] for _ in range(t)]
    uof = np.repeat(np.arange(len(units)), units)
    for r in sorted(p.logs.values, key=lambda r: int(r["id"])):
        i, x = int(r["idx"]), int(r["col"])
        cols[i][x] = ["0", num(r["new_position"])]
        if cash:
            un[i][uof[x]] = nums([r["new_cash"], r["new_free_cash"]])
    return cols, un


def record(p, close, groups, sharing, init, rng, logged, iso):
    """The case of one portfolio.  groups: lengths of its groups (or None); init: per cash unit, 'auto' or 'autoalign'."""
    close = np.asarray(close, dtype=float)
    t, n = close.shape
    auto = isinstance(init, str)
    cash_units = groups if sharing else [1] * n
    rec = sorted(p.orders.values, key=lambda r: int(r["id"]))
    ords = [[] for _ in range(n)]
    moved = 1.0
    for r in rec:
        ords[int(r["col"])].append({"i": int(r["idx"]) + 1, "side": pf.SIDE[int(r["side"])], "size": num(r["size"]),
                                    "price": num(r["price"]), "fees": num(r["fees"])})
        moved += abs(float(r["size"]) * float(r["price"])) + abs(float(r["fees"])) + float(r["size"]) * np.nanmax(np.append(close[:, int(r["col"])], 0))
    if not auto:
        moved += float(np.max(init))
    cols, un = lasts(p, t, n, cash_units, not auto)
    g = np.array(groups if groups else [1] * n)
    views = [view(p, None, g, not groups or sharing, un)]
    if groups:
        views.append(view(p, False, np.ones(n, dtype=int), not sharing, un))
    if not sharing and n > 1:
        og = np.array(pf.rand_groups(rng, n))
        views.append(view(p, np.repeat(np.arange(len(og)), og), og, False, []))
    a = {d: {"fl": tab(p.asset_flow(direction=d)), "pos": tab(p.assets(direction=d))} for d in ("both", "longonly", "shortonly")}
    lm, sm = mask(p.position_mask(direction="longonly", group_by=False)), mask(p.position_mask(direction="shortonly", group_by=False))
    c = {"n": n, "t": t, "from": [int(x) for x in np.cumsum(cash_units) - cash_units + 1], "to": [int(x) for x in np.cumsum(cash_units)],
         "sharing": bool(sharing), "init": [] if auto else nums(init), "auto": auto, "align": init == "autoalign" if auto else False,
         "fillna": bool(p.fillna_close), "close": tab(close), "ord": ords, "tol": num(1e-9 * moved), "small": num(1e-6 * moved),
         "views": views, "sim": logged, "last": cols, "hasiso": iso,
         "cols": [{"fb": a["both"]["fl"][i], "fl": a["longonly"]["fl"][i], "fs": a["shortonly"]["fl"][i], "pos": a["both"]["pos"][i],
                   "lpos": a["longonly"]["pos"][i], "spos": a["shortonly"]["pos"][i], "lm": lm[i], "sm": sm[i]} for i in range(t)]}
    if iso:
        k = dict(group_by=False, in_sim_order=True)
        s = {"cash": tab(p.cash(**k)), "free": tab(p.cash(free=True, **k)), "val": tab(p.value(**k)), "ret": tab(p.returns(**k))}
        c["iso"] = [{f: v[i] for f, v in s.items()} for i in range(t)]
        c["seq"] = [[int(x) for x in r] for r in np.asarray(p.call_seq).reshape(t, n)]
    return c


def whole(rng, kw, groups):
    """Sharing cash says that all columns are one group."""
    if kw.get("cash_sharing") and groups and len(groups) == 1 and rng.random() < 0.5:
        kw.pop("group_by", None)


def orders_pf(rng, jit=False):
    kw, full = pf.rand_orders_kwargs(rng, t=int(rng.integers(2, 9)), n=int(rng.integers(2, 5))) if jit else pf.rand_orders_kwargs(rng)
    if jit:
        kw = pf.uniform(kw, full)
    auto = None
    if rng.random() < 0.2:
        auto = "auto" if rng.random() < 0.5 else "autoalign"
        kw["init_cash"] = auto
        # without a limit on cash only orders of definite amounts make sense
        kw["size"] = np.where(np.isinf(kw["size"]), 1.0, kw["size"])
        kw["size_type"] = np.zeros_like(kw["size_type"]) if jit or not np.isscalar(kw["size_type"]) else 0
        kw["lock_cash"] = np.zeros_like(kw["lock_cash"]) if jit else False
    kw["fillna_close"] = bool(rng.random() < 0.7)
    if rng.random() < 0.3:
        kw["close"] = kw["close"].where(rng.random(kw["close"].shape) > 0.2)
        kw.setdefault("price", np.where(rng.random(full["shape"]) < 0.5, 3.0, 5.5) if not jit else full["price"])
    sharing = bool(kw.get("cash_sharing", False))
    kw["attach_call_seq"] = sharing
    whole(rng, kw, full["groups"])
    p = vbt.Portfolio.from_orders(**kw)
    return p, kw["close"].values, full["groups"], sharing, auto or full["init_cash"]


def signals_pf(rng, jit=False):
    kw, full = sig.rand_signals(rng, stops=bool(rng.random() < 0.4), t=int(rng.integers(2, 10)) if jit else None, n=int(rng.integers(2, 5)) if jit else None)
    if jit:
        kw = sig.uniform(kw, full)
    kw["attach_call_seq"] = True
    auto = None
    if rng.random() < 0.2:
        auto = "auto" if rng.random() < 0.5 else "autoalign"
        kw["init_cash"] = auto if rng.random() < 0.5 else int(auto == "autoalign")
        kw["size"] = np.full(kw["close"].shape, 1.0) if jit else float(rng.integers(1, 4))
        kw["size_type"] = np.zeros(kw["close"].shape, dtype=int) if jit else 0
        kw["lock_cash"] = np.zeros(kw["close"].shape, dtype=bool) if jit else False
    if "group_by" in kw:
        whole(rng, kw, full["glens"])
    p = vbt.Portfolio.from_signals(**kw)
    sharing = bool(kw.get("cash_sharing", False))
    g = [int(x) for x in p.wrapper.grouper.get_group_lens()] if p.wrapper.grouper.is_grouped() else None
    return p, kw["close"].values, g, sharing, auto or full["init_cash"]


def funcs_pf(rng, jit=False):
    while True:
        pr = cb.program(rng)
        auto = None if jit or rng.random() < 0.7 else "auto" if rng.random() < 0.5 else "autoalign"
        if auto:        # definite amounts
            pr["tab"][:, :, 0] = np.where(np.isinf(pr["tab"][:, :, 0]), 1.0, pr["tab"][:, :, 0])
            pr["tab"][:, :, 1] = 0
            pr["tab"][:, :, 11] = 0
        p, buf, err = cb.simulate(pr, jit=jit, auto=auto)
        if not err:
            break
    return p, np.asarray(pr["close"], dtype=float), pr["groups"] if pr["grouped"] else None, pr["sharing"], auto or pr["init"]


def from_orders(rng, jit=False):
    r = orders_pf(rng, jit)
    return record(*r, rng, True, r[3])


def from_signals(rng, jit=False):
    r = signals_pf(rng, jit)
    return record(*r, rng, True, r[3])


def from_funcs(rng, jit=False):
    return record(*funcs_pf(rng, jit), rng, False, False)
