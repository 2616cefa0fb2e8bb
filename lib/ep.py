"""Ranges and drawdowns of the real library against Episodes.tla."""
import numpy as np, pandas as pd
import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.generic.enums import range_dt
from vb import num, fl
DAY = pd.Timedelta("1D")


def bars(x, td=True):
    """Durations in bars, given as such or as numbers."""
    x = np.atleast_1d(np.asarray(pd.Series([x], dtype="timedelta64[ns]") if isinstance(x, pd.Timedelta) or x is pd.NaT else x))
    if (x.dtype.kind == "m") != td:
        return np.full(len(x), -77.0)
    return (x / np.timedelta64(1, "D") if x.dtype.kind == "m" else x.astype(float)).astype(float)


def arr(x):
    return np.atleast_1d(np.asarray(x, dtype=float))


def recs(r):
    """The records of each column."""
    out = [[] for _ in range(len(r.wrapper.columns))]
    dd = "peak_idx" in r.values.dtype.names
    for x in r.values:
        q = {"start": int(x["start_idx"]), "end": int(x["end_idx"]), "open": bool(x["status"] == 0)}
        if dd:
            q |= {"peak": int(x["peak_idx"]), "valley": int(x["valley_idx"]), "pv": num(x["peak_val"]), "vv": num(x["valley_val"]), "ev": num(x["end_val"])}
        out[int(x["col"])].append(q)
    return out


def split(r, g, a):
    idxs, lens = r.col_mapper.get_col_map(group_by=g)
    return [a[p] for p in np.split(np.asarray(idxs), np.cumsum(lens)[:-1])]


def rsum(r, g, td=True):
    kw = {} if td else {"wrap_kwargs": {"to_timedelta": False}}
    o, c = ("active", "recovered") if hasattr(r, "drawdown") else ("open", "closed")
    cov = np.array([arr(r.coverage(overlapping=b, normalize=n, group_by=g)) for b in (False, True) for n in (False, True)]).T
    m = r.to_mask(group_by=g).values
    m = m.reshape(len(m), -1).T
    cnt, op, cl = (arr(x.count(group_by=g)) for x in (r, getattr(r, o), getattr(r, c)))
    av, mx = (bars(f(group_by=g, **kw), td) for f in (r.avg_duration, r.max_duration))
    du = split(r, g, r.duration.values)
    return [{"count": cnt[u], "dur": du[u], "avgdur": av[u], "maxdur": mx[u], "mask": m[u].tolist(), "cov": cov[u], "open": op[u], "closed": cl[u]} for u in range(len(du))]


def dsum(r, g):
    a = {"dd": r.drawdown, "rr": r.recovery_return, "decline": r.decline_duration, "recovery": r.recovery_duration, "ratio": r.recovery_duration_ratio}
    a = {k: split(r, g, v.values) for k, v in a.items()}
    red = np.array([arr(f(group_by=g)) for f in (r.avg_drawdown, r.max_drawdown, r.avg_recovery_return, r.max_recovery_return)]).T
    return [{k: v[u] for k, v in a.items()} | {"red": red[u]} for u in range(len(red))]


def active(r):
    return np.array([arr(r.active_drawdown(group_by=False)), bars(r.active_duration(group_by=False)), arr(r.active_recovery(group_by=False)),
                     arr(r.active_recovery_return(group_by=False)), bars(r.active_recovery_duration(group_by=False))]).T


def recovered(r):
    q = r.recovered
    g = {"group_by": False}
    return np.array([arr(q.avg_drawdown(**g)), arr(q.max_drawdown(**g)), arr(q.recovery_return.max(**g)), arr(q.recovery_return.mean(**g)),
                     bars(q.max_duration(**g)), bars(q.avg_duration(**g)), arr(q.recovery_duration.max(**g)), arr(q.recovery_duration.mean(**g)),
                     arr(q.recovery_duration_ratio.mean(**g))]).T


A_S = [("Active Drawdown [%]", -100), ("Active Duration", 1), ("Active Recovery [%]", 100), ("Active Recovery Return [%]", 100), ("Active Recovery Duration", 1)]
R_S = [("Avg Drawdown [%]", -100), ("Max Drawdown [%]", -100), ("Max Recovery Return [%]", 100), ("Avg Recovery Return [%]", 100), ("Max Drawdown Duration", 1),
       ("Avg Drawdown Duration", 1), ("Max Recovery Duration", 1), ("Avg Recovery Duration", 1), ("Avg Recovery Duration Ratio", 1)]


def by_stats(r, which):
    """The same metrics as the table of statistics gives them."""
    out = []
    for c in r.wrapper.columns:
        s = r.stats(column=c, group_by=False) if r.wrapper.ndim == 2 else r.stats(group_by=False)
        out.append([(x / DAY if isinstance(x, pd.Timedelta) else float("nan") if x is pd.NaT else float(x)) / k for x, k in ((s[n], k) for n, k in which)])
    return np.array(out)


def strs(x):
    if isinstance(x, dict):
        return {k: strs(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return [strs(v) for v in x] if x.ndim > 1 else [num(float(v)) for v in x.tolist()]
    if isinstance(x, list):
        return x if x and isinstance(x[0], (bool, np.bool_)) else [strs(v) for v in x]
    return num(float(x))


def close(got, want):
    """The library's numbers against the model's."""
    if isinstance(want, dict):
        return all(close(got[k], v) for k, v in want.items())
    if isinstance(want, list):
        return len(got) == len(want) and all(close(a, b) for a, b in zip(got, want))
    if isinstance(want, str):
        w = fl(want)
        g = fl(got) if isinstance(got, str) else float(got)
        return (np.isnan(w) and np.isnan(g)) or g == w or abs(g - w) <= 1e-9 * max(1, abs(w))
    return got == want


def exhaust(todo, form):
    """What the library makes of all series of one length; form: how the ranges are asked for."""
    n = len(todo[0]["x"])
    X = np.array([[fl(v) for v in t["x"]] for t in todo]).T
    ix = pd.date_range("2024", periods=n)
    F = pd.DataFrame(X, index=ix, columns=[str(i) for i in range(len(todo))])
    if form == "float":
        R = F.vbt.ranges
    elif form == "bool":
        R = F.notna().vbt.ranges
    elif form == "int":
        R = vbt.Ranges.from_ts(F.fillna(-1).astype(np.int64), wrapper_kwargs={"freq": "1D"})
    else:
        R = F.fillna(7).vbt.get_ranges(gap_value=7)
    D = F.vbt.drawdowns if form != "int" else vbt.Drawdowns.from_ts(F)
    a = {"ranges": recs(R), "draws": recs(D), "rsum": rsum(R, None), "dcov": rsum(D, None, td=form != "int"), "dsum": dsum(D, None), "active": active(D), "recovered": recovered(D),
         "depths": F.vbt.drawdown().values.T}
    ids = all((q.values["id"] == np.arange(len(q.values))).all() for q in (R, D))
    out = []
    for j, t in enumerate(todo):
        g = {k: v[j] for k, v in a.items()}
        g["dsum"] = g["dsum"] | {"active": g.pop("active"), "recovered": g.pop("recovered")}
        out.append((ids and close(g, {k: v for k, v in t.items() if k != "x"}), g))
    return out


def history(rng):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    n, w, kind = int(rng.integers(1, 30)), int(rng.integers(1, 6)), c("draws", "draws", "ranges", "given")
    names = list("abcdefg")[:w]
    ix = pd.date_range("2024", periods=n)
    how = c("walk", "ties", "down", "up", "cents")
    X = np.cumsum(rng.integers(-2, 3, (n, w)), axis=0) + 12.0 if how == "walk" else rng.integers(1, 4, (n, w)).astype(float) if how == "ties" else \
        np.round(100 * np.exp(np.cumsum(rng.normal({"down": -0.05, "up": 0.05, "cents": 0}[how], 0.03, (n, w)), axis=0)), 2)
    X[rng.random((n, w)) < c(0, 0, 0.1, 0.5)] = np.nan
    if c(0, 0, 1):
        X[: int(rng.integers(0, n + 1)), 0] = np.nan
    if c(0, 0, 1):
        X[n - int(rng.integers(0, n + 1)):, w - 1] = np.nan
    gap = c("nan", num(float(X.ravel()[0]))) if kind == "ranges" else "nan"
    F = pd.DataFrame(X, index=ix, columns=names)
    one = w == 1 and c(0, 1)
    given = []
    if kind == "given":
        a = []
        for i in range(w):
            given.append([])
            for _ in range(int(rng.integers(0, 5))):
                s, e, o = *sorted(int(v) for v in rng.integers(0, n, 2)), bool(c(0, 1))
                given[-1].append({"start": s, "end": e, "open": o})
                a.append((len(a), i, s, e, 0 if o else 1))
        r = vbt.Ranges(ArrayWrapper(ix, names, 2, freq="1D"), np.array(a, dtype=range_dt))
    else:
        S = F["a"] if one else F
        r = (S.vbt.get_drawdowns() if kind == "draws" else S.vbt.get_ranges(gap_value=None if gap == "nan" else fl(gap)))
    ops = []
    for _ in range(int(rng.integers(1, 5))):
        m = len(r.wrapper.columns)
        op = c("look", "cols", "regroup", "status")
        if op == "cols" and not one and r.wrapper.ndim == 2:
            p = sorted(rng.choice(m, int(rng.integers(1, m + 1)), replace=False).tolist())
            r = r.indexing_func(lambda x: x.iloc[p], group_select=False) if c(0, 1) or r.wrapper.grouper.is_grouped() else r[[r.wrapper.columns[i] for i in p]]
            ops.append({"op": op, "p": p})
        elif op == "regroup" and not one and r.wrapper.ndim == 2:
            g = c([], sorted(c("g", "h", "k") for _ in range(m)))
            r = r.regroup(g or False)
            ops.append({"op": op, "p": g})
        elif op == "status":
            o = bool(c(0, 1))
            r = (r.active if o else r.recovered) if kind == "draws" else (r.open if o else r.closed)
            ops.append({"op": op, "open": o})
        if op == "look" or _ == 0:
            ops.append(look(r, kind, c))
    ops.append(look(r, kind, c))
    return {"kind": kind, "n": n, "x": [[num(v) for v in col] for col in X.T], "gap": gap, "given": given, "ops": ops}


def look(r, kind, c):
    o = {"op": "look", "recs": recs(r)}
    td = bool(c(0, 1))
    for k, g in (("own", None), ("cols", False)):
        a = rsum(r, g, td)
        b = dsum(r, g) if kind == "draws" else [{}] * len(a)
        o[k] = [{"rsum": strs(x), "dsum": strs(y)} for x, y in zip(a, b)]
    o["ts"] = [] if kind == "given" else [[num(v) for v in col] for col in np.asarray(r.ts, dtype=float).reshape(len(r.wrapper.index), -1).T]
    if kind == "draws":
        s = c(0, 0, 0, 1)
        o["active"] = strs(by_stats(r, A_S) if s else active(r))
        o["recovered"] = strs(by_stats(r, R_S) if s else recovered(r))
    return o
