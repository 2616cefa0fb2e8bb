"""Recorded trades and positions for the Trades specification."""
import numpy as np
import vectorbt as vbt
from vectorbt.portfolio.enums import order_dt, log_dt
import pandas as pd
from vb import num, nums, fl
import pf

DIRN = {0: "Long", 1: "Short"}


def recs(t):
    v = t.values
    return [{"id": int(r["id"]), "col": int(r["col"]) + 1, "ei": int(r["entry_idx"]) + 1, "xi": int(r["exit_idx"]) + 1,
             "dir": DIRN.get(int(r["direction"]), "?"), "open": int(r["status"]) == 0, "parent": int(r["parent_id"]),
             "v": nums([r["size"], r["entry_price"], r["entry_fees"], r["exit_price"], r["exit_fees"], r["pnl"], r["return"]])} for r in v]


def arr(x, f=nums):
    return f(np.atleast_1d(np.asarray(x)))


def ints(x):
    return [int(v) for v in x]


def aggs(t, **k):
    return {"count": arr(t.count(**k), ints), "win": arr(t.winning.count(**k), ints), "lose": arr(t.losing.count(**k), ints),
            "long": arr(t.long.count(**k), ints), "short": arr(t.short.count(**k), ints), "open": arr(t.open.count(**k), ints),
            "closed": arr(t.closed.count(**k), ints), "rate": arr(t.win_rate(**k)), "factor": arr(t.profit_factor(**k)),
            "expect": arr(t.expectancy(**k)), "sqn": arr(t.sqn(**k))}


def record(p, close, groups, rng, total=True):
    close = np.asarray(close, dtype=float)
    t, n = close.shape
    ords = [[] for _ in range(n)]
    moved = 1.0
    for r in sorted(p.orders.values, key=lambda r: int(r["id"])):
        ords[int(r["col"])].append({"i": int(r["idx"]) + 1, "side": pf.SIDE[int(r["side"])], "size": num(r["size"]),
                                    "price": num(r["price"]), "fees": num(r["fees"])})
        moved += abs(float(r["size"]) * float(r["price"])) + abs(float(r["fees"]))
    en, ex, ps = p.entry_trades, p.exit_trades, p.positions
    views = []
    for g in ([groups] if groups else []) + [[1] * n]:
        to = np.cumsum(g)
        if rng.random() < 0.4:
            continue
        kind = ["en", "ex", "ps"][int(rng.integers(3))]
        k = dict(group_by=False) if len(g) == n else dict(group_by=None)
        if groups and g is groups and rng.random() < 0.5:
            k = dict(group_by=np.repeat(np.arange(len(g)), g))
        if groups and len(g) == n and g is groups:
            k = dict(group_by=None)
        views.append({"from": ints(to - np.array(g) + 1), "to": ints(to), "kind": kind, "agg": aggs({"en": en, "ex": ex, "ps": ps}[kind], **k)})
    from vectorbt.portfolio.trades import Positions
    prof = np.atleast_1d(np.asarray(p.total_profit(group_by=False), dtype=float))
    return {"n": n, "t": t, "ord": ords, "last": nums(close[-1]), "known": [bool(total and x == x) for x in close[-1]], "moved": num(moved),
            "prof": nums(prof), "en": recs(en), "ex": recs(ex), "ps": recs(ps), "ps2": recs(Positions.from_trades(en)),
            "ws": ints(ex.winning_streak.values), "ls": ints(ex.losing_streak.values), "views": views}


def portfolio(ords, close, **kw):
    """A portfolio from order records written by hand (lists per column of [i, side, size, price, fees], bars from 1)."""
    n = len(ords)
    rec = np.zeros(sum(map(len, ords)), dtype=order_dt)
    k = 0
    for x, os_ in enumerate(ords):
        for o in os_:
            rec[k]["id"], rec[k]["col"], rec[k]["idx"] = k, x, o["i"] - 1
            rec[k]["size"], rec[k]["price"], rec[k]["fees"], rec[k]["side"] = fl(o["size"]), fl(o["price"]), fl(o["fees"]), int(o["side"] == "Sell")
            k += 1
    df = pd.DataFrame(np.asarray(close, dtype=float))
    g = kw.pop("group_by", None)
    return vbt.Portfolio(vbt.ArrayWrapper.from_obj(df, freq="D", group_by=g), df, rec, np.empty(0, dtype=log_dt), 100.0 * np.ones(n), False, **kw)


def hand_made(rng):
    """Random order sequences, not limited by any account."""
    t, n = int(rng.integers(2, 8)), int(rng.integers(1, 5))
    close = pf.rand_close(rng, (t, n))
    grid = [1, 2, 0.5, 3, 0.1, 0.2, 0.3, 1.5, 2.2]
    ords = []
    for x in range(n):
        os_, pos = [], 0.0
        for i in range(t):
            for _ in range(int(rng.integers(0, 3))):
                size = float(rng.choice(grid))
                side = "Buy" if rng.random() < 0.5 else "Sell"
                if pos and rng.random() < 0.35:     # close exactly, or reverse
                    side = "Sell" if pos > 0 else "Buy"
                    size = abs(pos) * float(rng.choice([1, 1, 0.5, 2, 1.5]))
                pos += size if side == "Buy" else -size
                if abs(pos) < 1e-12:
                    pos = 0.0
                os_.append({"i": i + 1, "side": side, "size": num(size), "price": num(round(float(rng.uniform(1, 20)), 2)),
                            "fees": num(float(rng.choice([0, 0, 0.1, 1, 0.37, -0.05])))})
        ords.append(os_)
    g = pf.rand_groups(rng, n) if n > 1 and rng.random() < 0.5 else None
    p = portfolio(ords, close, group_by=np.repeat(np.arange(len(g)), g) if g else None)
    return record(p, close, g, rng)
