"""Selections and regroupings of simulated portfolios, recorded for PfView.tla."""
import warnings
import numpy as np, pandas as pd
import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper
from vb import num, nums
from vectorbt.base.indexing import IndexingError
import rc, pf as pfl

KINDS = ["orders", "logs", "entry_trades", "exit_trades", "positions"]
DROP = {"orders": {"col"}, "logs": {"col"}}
REC = ["orders", "bought", "fees", "logs", "entries", "exits", "positions", "trades", "pnl", "win rate", "profit factor", "expectancy", "winners", "longest trade"]
VAL = ["profit", "final", "return", "benchmark return", "cash needed", "drawdowns", "worst drawdown", "longest drawdown", "volatility", "sharpe", "sortino", "calmar", "omega", "largest exposure", "coverage"]
STATS = ["total_return", "max_dd", "total_trades", "win_rate", "sharpe_ratio", "max_gross_exposure", "total_fees_paid", "total_closed_trades", "benchmark_return", "best_trade", "end_value", "start_value", "max_dd_duration", "avg_winning_trade"]


def val(x):
    if x is pd.NaT:
        return "nan"
    if isinstance(x, (pd.Timedelta, np.timedelta64)):
        return "nan" if pd.isna(x) else num(pd.Timedelta(x) / pd.Timedelta("1D"))
    x = float(x)
    return "nan" if abs(x) > 1e7 else num(x)      # quotients by rounding noise


def vals(x):
    a = [x] if np.ndim(x) == 0 else list(x)
    return [val(v) for v in a]


def metrics(p, g, full, stats):
    k = dict(group_by=g)
    o, tr, dd = p.get_orders(**k), p.get_trades(**k), p.get_drawdowns(**k)
    out = [o.count(), o.buy.size.sum(), o.fees.sum(), p.get_logs(**k).count(), p.get_entry_trades(**k).count(), p.get_exit_trades(**k).count(),
           p.get_positions(**k).count(), tr.count(), tr.pnl.sum(), tr.win_rate(), tr.profit_factor(), tr.expectancy(), tr.winning.count(), tr.duration.max()]
    if full:
        acc = p.get_returns_acc(**k)
        vol = np.atleast_1d(np.asarray(acc.annualized_volatility(), dtype=float))
        keep = lambda x: np.where(vol > 1e-6, np.atleast_1d(np.asarray(x, dtype=float)), np.nan)
        out += [p.total_profit(**k), p.final_value(**k), p.total_return(**k), p.total_benchmark_return(**k), p.get_init_cash(**k), dd.count(), dd.max_drawdown(), dd.max_duration(),
                vol, keep(acc.sharpe_ratio()), keep(acc.sortino_ratio()), keep(acc.calmar_ratio()), keep(acc.omega_ratio()), np.nanmax(rc2(p.gross_exposure(**k)), axis=0), p.position_coverage(**k)]
        if stats:
            s = p.stats(metrics=STATS, agg_func=None, silence_warnings=True, **k)
            out += [[s.iloc[j]] if isinstance(s, pd.Series) else list(s.iloc[:, j]) for j in range(len(STATS))]
            j = len(REC) + len(VAL) + STATS.index("sharpe_ratio")
            out[j] = keep(out[j])
    else:
        m = len(np.atleast_1d(np.asarray(out[0])))
        out += [[np.nan] * m for _ in VAL + (STATS if stats else [])]
    return [vals(x) for x in out]


def rc2(x):
    a = np.asarray(x)
    return a[:, None] if a.ndim == 1 else a


def records(p):
    """Records per kind and column, as tuples of text."""
    out = []
    n = len(p.wrapper.columns) if hasattr(p, "wrapper") else 0
    for name in KINDS:
        out.append(table(name, getattr(p, name).values, n))
    return out


def table(name, values, n):
    drop = DROP.get(name, {"id", "col", "parent_id"})
    cols = [[] for _ in range(n)]
    fields = [f for f in values.dtype.names if f not in drop]
    for r in values:
        cols[int(r["col"])].append([num(r[f]) for f in fields])
    return {"name": name, "cols": cols}


def alone(p, key, grouped, sharing, init, auto):
    """The portfolio of some columns, built from plain arrays."""
    w = p.wrapper
    close = rc2(p.close)[:, key]

    def cut(rec):
        a = [rec[rec["col"] == x].copy() for x in key]
        for j, r in enumerate(a):
            r["col"] = j
        return np.concatenate(a) if a else rec[:0]
    nw = ArrayWrapper(w.index, pd.Index([w.columns[x] for x in key]), 2, freq="D", group_by=np.array(["u"] * len(key)) if grouped else None)
    seq = None if p.call_seq is None else rc2(p.call_seq)[:, key]
    return vbt.Portfolio(nw, pd.DataFrame(close, index=w.index, columns=nw.columns), cut(p.order_records), cut(p.log_records), auto if auto is not None else np.array(init, dtype=float), sharing,
                         call_seq=seq, fillna_close=p.fillna_close, trades_type=p.trades_type)


def case(rng):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    base, close, groups, sharing, init = c(rc.orders_pf, rc.orders_pf, rc.signals_pf, rc.funcs_pf)(rng)
    base = base.replace(wrapper=base.wrapper.replace(freq="D"), trades_type=c(0, 1, 2))
    auto = isinstance(init, str)
    mode = None if not auto else base._init_cash
    t, n = close.shape
    cash_units = groups if sharing else [1] * n
    ords = [[] for _ in range(n)]
    moved = 1.0 if auto else 1.0 + float(np.max(init))
    for r in sorted(base.orders.values, key=lambda r: int(r["id"])):
        ords[int(r["col"])].append({"i": int(r["idx"]) + 1, "side": pfl.SIDE[int(r["side"])], "size": num(r["size"]), "price": num(r["price"]), "fees": num(r["fees"])})
        moved += abs(float(r["size"]) * float(r["price"])) + abs(float(r["fees"])) + float(r["size"]) * np.nanmax(np.append(close[:, int(r["col"])], 0))
    labels = {v: i for i, v in enumerate(base.wrapper.columns)}
    grouped = base.wrapper.grouper.is_grouped()
    seq = [] if base.call_seq is None else [[int(x) for x in r] for r in rc2(base.call_seq)]
    b = {"n": n, "t": t, "sharing": bool(sharing), "auto": auto, "align": auto and init == "autoalign", "init": [] if auto else nums(init), "fillna": bool(base.fillna_close),
         "close": rc.tab(close), "ord": ords, "grp": [str(x) for x in base.wrapper.grouper.group_by] if grouped else [], "ndim": 2, "gnd": 0, "seq": seq,
         "tol": num(1e-9 * moved), "small": num(1e-6 * moved), "recs": records(base)}
    p, ops, oks = base, [], []
    tables = {k: getattr(base, k) for k in KINDS}
    for _ in range(int(rng.integers(1, 4))):
        p, op, ok, f, kw = step(rng, c, p, sharing)
        ops.append(op)
        oks.append(ok)
        if ok and op["op"] in ("cols", "groups"):
            tables = {k: v.indexing_func(f, **kw) for k, v in tables.items()}
        elif ok and op["op"] == "regroup":
            tables = {k: v.regroup(kw["arg"]) for k, v in tables.items()}
    w = p.wrapper
    at = [labels[x] for x in w.columns]
    m = len(at)
    own = w.grouper.is_grouped()
    stats = bool(rng.random() < 0.15)
    views, refs = [], {}

    def look(kind, arg, g, ref):
        v = rc.view(p, arg, np.ones(1, dtype=int), False, [])
        v.pop("from"), v.pop("to")
        v.update(kind=kind, g=[str(x) for x in g], ref=ref, metrics=metrics(p, arg, ref == "full", stats))
        h = [str(x) for x in (w.grouper.group_by if own else range(m))] if kind == "own" else list(map(str, range(m))) if kind == "none" else v["g"]
        units = []
        for x, lab in zip(at, h):
            if units and units[-1][0] == lab:
                units[-1][1].append(x)
            else:
                units.append((lab, [x]))
        for _, key in units:
            if (tuple(key), ref) in refs:
                continue
            sh = sharing and kind == "own"
            i0 = [] if auto else [init[int(np.searchsorted(np.cumsum(groups), key[0], side="right"))]] if sh else [init[x] if not sharing else 1.0 for x in key]
            q = alone(base, key, len(key) > 1 or sh, sh, i0, mode)
            refs[tuple(key), ref] = [x[0] for x in metrics(q, None, ref == "full", stats)]
        views.append(v)

    kind = "rec" if b["align"] else "full"
    look("own", None, [], kind)
    if own:
        look("none", False, [], "rec" if sharing else kind)
    if not sharing and m > 1:
        og = np.array(pfl.rand_groups(rng, m))
        g = np.repeat(np.arange(len(og)), og)
        look("given", g, g, kind)
    a = {d: {"fl": rc.tab(p.asset_flow(direction=d)), "pos": rc.tab(p.assets(direction=d))} for d in ("both", "longonly", "shortonly")}
    lm, sm = rc.mask(p.position_mask(direction="longonly", group_by=False)), rc.mask(p.position_mask(direction="shortonly", group_by=False))
    out = {"base": b, "ops": ops, "oks": oks, "labels": at, "dims": [w.ndim, w.grouped_ndim], "groups": [str(x) for x in w.grouper.group_by] if own else [],
           "gotclose": rc.tab(p.close), "gotseq": [] if p.call_seq is None else [[int(x) for x in r] for r in rc2(p.call_seq)], "recs": records(p),
           "sel": [table(k, v.values, m) for k, v in tables.items()], "views": views, "names": REC + VAL + (STATS if stats else []),
           "refs": [{"key": list(k), "kind": r, "metrics": v} for (k, r), v in refs.items()], "sim": False,
           "cols": [{"fb": a["both"]["fl"][i], "fl": a["longonly"]["fl"][i], "fs": a["shortonly"]["fl"][i], "pos": a["both"]["pos"][i],
                     "lpos": a["longonly"]["pos"][i], "spos": a["shortonly"]["pos"][i], "lm": lm[i], "sm": sm[i]} for i in range(t)]}
    iso = bool(sharing and seq)
    out["hasiso"] = iso
    if iso:
        k = dict(group_by=False, in_sim_order=True)
        s = {"cash": rc.tab(p.cash(**k)), "free": rc.tab(p.cash(free=True, **k)), "val": rc.tab(p.value(**k)), "ret": rc.tab(p.returns(**k))}
        out["iso"] = [{f: v[i] for f, v in s.items()} for i in range(t)]
    return out


def blocks(rng, k):
    return [f"g{x}" for x in rng.permutation(k + 3)[np.sort(rng.integers(0, k + 1, k))]] if k else []


def step(rng, c, p, sharing):
    """One operation on a portfolio: the new one, the operation, whether it was allowed, and how to repeat it."""
    w = p.wrapper
    g = w.grouper
    grouped = g.is_grouped()
    kinds = ["rows", "ask"]
    lone = grouped and w.grouped_ndim == 2 and g.get_group_count() == 1
    if w.ndim == 2:
        if not lone:
            kinds += ["regroup"] * 2
        if not grouped:
            kinds += ["cols"] * 8
        elif not sharing:
            kinds += ["cols"] * 3
    else:
        kinds += ["cols"]
    if grouped:
        kinds += ["groups"] * 8
    op = c(*kinds)
    if op == "cols" and w.ndim == 1 and grouped:
        op = "groups"
    if op in ("regroup", "ask"):
        k = len(w.columns)
        old = [str(x) for x in g.group_by] if grouped else []
        h = blocks(rng, k) if c(0, 0, 1) else ["t"] * k if c(0, 1) else [] if c(0, 1) else ["n" + x for x in old]
        if op == "ask" and w.ndim == 1:
            h = old
        arg = False if not h else True if h == ["t"] * k and c(0, 1) else c(list(h), pd.Index(h), np.array(h)) if k > 1 else pd.Index(h)
        if arg is True:
            h = ["group"] * k
        o = {"op": op, "g": h, "p": [], "scalar": False}
        try:
            if op == "ask":
                f = c("cash_flow", "asset_value", "value", "total_profit", "get_orders", "get_init_cash", "total_return", "get_drawdowns", "gross_exposure", "get_trades")
                getattr(p, f)(group_by=arg)
                return p, o, True, None, {}
            return p.regroup(arg), o, True, None, {"arg": arg}
        except ValueError:
            return p, o, False, None, {}
    if op == "rows":
        try:
            c(lambda: p.iloc[0:1, :], lambda: p.iloc[:, :], lambda: p.loc[w.index[0]:, :])()
            return p, {"op": op, "g": [], "p": [], "scalar": False}, True, None, {}
        except (pd.errors.IndexingError, IndexingError):
            return p, {"op": op, "g": [], "p": [], "scalar": False}, False, None, {}
    names = w.get_columns() if op == "groups" else w.columns
    m = len(names)
    scalar = bool(c(0, 0, 1))
    pos = [int(rng.integers(m))] if scalar else [int(x) for x in rng.permutation(m)[:int(rng.integers(1, m + 1))]]
    if op == "cols" and grouped:
        pos = sorted(pos)
    elif op == "cols" and not scalar and c(0, 0, 0, 1):
        pos = [int(x) for x in rng.integers(0, m, 4)]
    kw = {"group_select": False} if op == "cols" and grouped else {}
    one = pos[0] if scalar else pos
    style = c("pos", "label", "mask", "slice")
    f = lambda x: x.iloc[one]
    if style == "label" and names.is_unique:
        lab = names[pos[0]] if scalar else list(names[pos])
        f = c(lambda x: x[lab], lambda x: x.loc[lab])
    elif style == "mask" and not scalar and pos == sorted(set(pos)):
        mk = np.isin(np.arange(m), pos)
        f = c(lambda x: x.iloc[mk], lambda x: x.loc[mk])
    elif style == "slice" and not scalar:
        a, e, st = int(rng.integers(0, m)), int(rng.integers(1, m + 1)), c(1, 1, 2, -1)
        q = list(range(m))[a:e:st] if st > 0 else list(range(m))[::-1]
        if q and not (op == "cols" and grouped and st < 0):
            pos = q
            s = slice(a, e, st) if st > 0 else slice(None, None, -1)
            f = lambda x: x.iloc[s]
    o = {"op": op, "p": pos, "scalar": scalar, "g": []}
    try:
        new = f(p) if not kw else p.indexing_func(f, **kw)
        return new, o, True, f, kw
    except IndexingError as e:
        if "Columns only" not in str(e):
            raise
        return p, o, False, None, {}


def replay(t, nc, bases):
    key = (tuple(t["g0"]), t["sharing"])
    if key not in bases:
        x = np.arange(1, nc + 1, dtype=float)
        units = len(dict.fromkeys(t["g0"]))
        size = np.full((2, nc), np.nan)
        size[0] = x
        bases[key] = vbt.Portfolio.from_orders(pd.DataFrame([x, x], columns=list("abcd")[:nc]), size, fees=0., init_cash=1000. * np.arange(1, units + 1) if t["sharing"] else 100. * x,
                                               group_by=list(t["g0"]) if t["g0"] else None, cash_sharing=t["sharing"], freq="D")
    p = bases[key]
    oks = []
    for o in t["ops"]:
        g = pd.Index(o["g"]) if len(o["g"]) else False
        one = o["p"][0] if o["scalar"] else list(o["p"])
        try:
            if o["op"] == "ask":
                p.value(group_by=g), p.total_profit(group_by=g), p.get_trades(group_by=g)
            elif o["op"] == "regroup":
                p = p.regroup(g)
            elif o["op"] == "cols":
                p = p.indexing_func(lambda x: x.iloc[one], group_select=False)
            else:
                p = p.iloc[one]
            oks.append(True)
        except (ValueError, IndexingError) as e:
            if not isinstance(e, IndexingError) and o["op"] not in ("ask", "regroup"):
                raise
            oks.append(False)
    w = p.wrapper
    flow = np.atleast_1d(np.asarray(p.cash_flow().sum() if w.grouped_ndim == 2 else [p.cash_flow().sum()], dtype=float))
    return {"oks": oks, "cols": [list("abcd").index(x) for x in w.columns], "grp": [str(x) for x in w.grouper.group_by] if w.grouper.is_grouped() else [],
            "dims": [w.ndim, w.grouped_ndim], "totals": [list(x) for x in zip(rc.row(p.get_init_cash()), nums(flow))]}
