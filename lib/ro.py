"""Operations along series of the real library against Rolling.tla."""
import numpy as np, pandas as pd
import vectorbt as vbt
from numba import njit
from vectorbt.generic import nb
from vb import num, fl, nums


@njit
def sum_r(i, col, a):
    return np.nansum(a)


@njit
def range_r(i, col, a):
    return np.nanmax(a) - np.nanmin(a)


@njit
def sum_m(i, a):
    return np.nansum(a)


@njit
def max_m(i, a):
    return np.nanmax(a)


@njit
def rank_m(i, a):
    return np.array([float(np.sum(a < v)) for v in a])


@njit
def sq1(i, col, x):
    return x * x + 1


@njit
def over(i, col, x, t):
    return x > t


@njit
def known(col, a):
    return a[~np.isnan(a)]


@njit
def spread(col, a):
    return np.max(a) - np.min(a) if a.shape[0] else np.nan


@njit
def ends(col, a):
    return np.array([a[0], a[-1]])


@njit
def sum_2d(g, a):
    return np.nansum(a)


def column(F, o, y=None):
    """A result for every column; y: the series to cross."""
    v, op, f = F.vbt, o["op"], o.get("f")
    if op in ("roll", "expand"):
        w, m = o["w"], o["m"]
        if f in ("sum", "range"):
            fn = sum_r if f == "sum" else range_r
            return v.rolling_apply(w, fn, minp=m) if op == "roll" else v.expanding_apply(fn, minp=m)
        kw = {"ddof": o["ddof"]} if f == "var" else {}
        g = getattr(v, ("rolling_" if op == "roll" else "expanding_") + ("std" if f == "var" else f))
        r = g(w, minp=m, **kw) if op == "roll" else g(minp=m, **kw)
        return r ** 2 if f == "var" else r
    if op == "ewm":
        r = (v.ewm_mean if f == "mean" else v.ewm_std)(o["span"], minp=o["m"], adjust=o["adjust"])
        return r ** 2 if f == "var" else r
    if op in ("fshift", "bshift"):
        return getattr(v, op)(o["n"], fill_value=fl(o["fill"]))
    if op == "diff":
        return v.diff(o["n"])
    if op == "change":
        return v.pct_change(o["n"])
    if op in ("above", "below"):
        return (v.crossed_above if op == "above" else v.crossed_below)(y, wait=o["n"]).astype(float)
    if op in ("ffill", "bfill", "cumsum", "cumprod"):
        return getattr(v, op)()
    if op == "fillna":
        return v.fillna(fl(o["fill"]))
    if op == "map":
        return v.applymap(sq1)
    if op == "filter":
        return v.filter(over, fl(o["fill"]))
    if op == "rebase":
        return v.rebase(fl(o["fill"]))
    if op == "rank":
        return v.apply_along_axis(rank_m, axis=1)


RAW = {"min": "min", "max": "max", "mean": "mean", "var": "std"}


def raw(x, o):
    """The same from the one-dimensional functions."""
    op, f = o["op"], o.get("f")
    if op in ("roll", "expand") and f in RAW:
        kw = {"ddof": o["ddof"]} if f == "var" else {}
        r = getattr(nb, f"rolling_{RAW[f]}_1d_nb")(x, o["w"], minp=o["m"], **kw) if op == "roll" else getattr(nb, f"expanding_{RAW[f]}_1d_nb")(x, minp=o["m"], **kw)
        return r ** 2 if f == "var" else r
    if op == "ewm":
        r = (nb.ewm_mean_1d_nb if f == "mean" else nb.ewm_std_1d_nb)(x, o["span"], minp=o["m"], adjust=o["adjust"])
        return r ** 2 if f == "var" else r
    if op in ("fshift", "bshift"):
        return getattr(nb, op + "_1d_nb")(x, o["n"], fl(o["fill"]))
    if op in ("diff", "change"):
        return (nb.diff_1d_nb if op == "diff" else nb.pct_change_1d_nb)(x, o["n"])
    if op in ("ffill", "bfill"):
        return getattr(nb, op + "_1d_nb")(x)
    return None


def flat(r):
    a = np.asarray(r, dtype=float)
    return a.reshape(len(a), -1).T


def exhaust(ops, todo):
    """Every operation on all series of one length; the series as columns."""
    n = len(todo[0]["x"])
    X = np.array([[fl(v) for v in t["x"]] for t in todo]).T
    F = pd.DataFrame(X, index=pd.date_range("2024", periods=n), columns=[str(i) for i in range(len(todo))])
    for k, o in enumerate(ops):
        if o["op"] == "expand" and o["m"] > n:     # refused
            continue
        got = flat(column(F, o, 2.0))
        want = np.array([[fl(v) for v in t["out"][k]] for t in todo])
        ok = np.isclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True)
        if o["op"] == "ewm" and o["f"] == "mean" and not o["adjust"]:     # pandas 3 weighs differently across gaps
            ok |= np.isnan(X).any(axis=0)[:, None]
            got = np.array([nb.ewm_mean_1d_nb(c, o["span"], minp=o["m"], adjust=False) for c in X.T])
            ok &= np.isclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True)
        if o["op"] == "ewm" and o["f"] == "var":     # a spread of one known value: zero by rounding, instead of none
            ok |= (got == 0) & (np.cumsum(~np.isnan(X), axis=0).T == 1)
        bad = ~ok.all(axis=1)
        yield o, bad, got, want


def history(rng):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    n, w = int(rng.integers(1, 31)), int(rng.integers(1, 5))
    how = c("ties", "ints", "walk", "cents")
    X = rng.integers(1, 5, (n, w)).astype(float) if how in ("ties", "ints") else np.cumsum(rng.integers(-2, 3, (n, w)), axis=0) + 12.0 if how == "walk" else np.round(100 * np.exp(np.cumsum(rng.normal(0, 0.03, (n, w)), axis=0)), 2)
    if how != "ints":
        X[rng.random((n, w)) < c(0, 0.1, 0.5)] = np.nan
        if c(0, 0, 1):
            X[: int(rng.integers(0, n + 1)), 0] = np.nan
    days = np.cumsum(rng.integers(1, 4, n)) - 1
    F = pd.DataFrame(X.astype(np.int64) if how == "ints" else X, index=pd.Timestamp("2024") + pd.to_timedelta(days, unit="D"), columns=list("abcd")[:w])
    one = w == 1 and c(0, 1)
    S = F["a"] if one else F
    any_nan = bool(np.isnan(X).any())
    ops = []
    for _ in range(int(rng.integers(6, 12))):
        op = c("roll", "roll", "roll", "expand", "ewm", "ewm", "fshift", "bshift", "diff", "change", "above", "below", "ffill", "bfill", "cumsum", "cumprod", "fillna",
               "map", "filter", "rebase", "rank", "matrix", "groupby", "groupall", "resample", "reduce", "reduce", "reduce", "squeeze", "flatten", "counts", "shuffle")
        o = {"op": op}
        if op in ("roll", "expand"):
            o |= {"w": int(rng.integers(1, n + 3)) if op == "roll" else 0, "f": c("min", "max", "mean", "var", "sum", "range"), "ddof": c(0, 1)}
            o["m"] = int(rng.integers(1 if o["f"] in ("range", "var") else 0, (o["w"] if op == "roll" else n) + 1))
            if op == "roll" and c(0, 0, 1):
                o["m"] = o["w"]
        elif op == "ewm":
            o |= {"span": int(rng.integers(1, 8)), "adjust": bool(c(0, 1)), "f": c("mean", "var")}
            if o["f"] == "mean" and any_nan:     # pandas 3 weighs differently across gaps without adjust
                o["adjust"] = True
            o["m"] = int(rng.integers(0, o["span"] + 1))
        elif op in ("fshift", "bshift"):
            o |= {"n": int(rng.integers(0, n + 2)), "fill": c("nan", "0", "7")}
        elif op in ("diff", "change"):
            o |= {"n": int(rng.integers(1, n + 2))}
        elif op in ("above", "below"):
            Y = np.where(rng.random((n, w)) < c(0, 0.1), np.nan, X + rng.integers(-1, 2, (n, w))) if c(0, 1) else np.full((n, w), np.nanmean(X) // 1 if not np.isnan(X).all() else 1.0)
            o |= {"n": c(0, 0, 1, 2), "y": [nums(col) for col in Y.T]}
        elif op == "fillna":
            o |= {"fill": c("0", "5/2", "-1")}
        elif op == "filter":
            o |= {"fill": num(float(rng.integers(1, 13)))}
        elif op == "rebase":
            o |= {"fill": c("1", "100")}
        if op in ("matrix", "rank") and (any_nan or one):
            continue
        if op in ("above", "below"):
            Yf = pd.DataFrame(Y, index=F.index, columns=F.columns)
            r = column(S, o, Yf["a"] if one else Yf)
        elif op == "matrix":
            o |= {"w": int(rng.integers(1, n + 2)), "f": c("sum", "max"), "ddof": 0}
            o["m"] = int(rng.integers(0, o["w"] + 1))
            r = S.vbt.rolling_apply(o["w"], sum_m if o["f"] == "sum" else max_m, minp=o["m"], on_matrix=True)
        elif op in ("groupby", "groupall"):
            by = rng.integers(0, 4, n).tolist()
            fn = (sum_r if op == "groupby" else sum_m)
            r = S.vbt.groupby_apply(np.array(by), fn, on_matrix=op == "groupall")
            keys = sorted(set(by))
            o |= {"by": by, "keys": keys, "f": "sum", "ddof": 0}
            r = r.loc[keys]
        elif op == "resample":
            d = int(rng.integers(1, 6))
            r = S.vbt.resample_apply(f"{d}D", sum_r)
            by = ((days - days[0]) // d).tolist()
            keys = list(range(by[-1] + 1))
            want_ix = [F.index[0] + pd.Timedelta(days=d * j) for j in keys]
            if list(r.index) != want_ix:
                o["op"], r = "resample index", r.iloc[:0]
            else:     # a bin without a bar has no value
                r = r.iloc[[j for j in keys if j in by]] if r[[j not in by for j in keys]].isna().values.all() else r.iloc[:0]
            o |= {"op": "groupby", "by": by, "keys": sorted(set(by)), "f": "sum", "ddof": 0}
        elif op in ("reduce", "squeeze", "flatten", "counts"):
            g = None if one or (op in ("reduce", "counts") and c(0, 1)) else sorted(c("g", "h", "k") for _ in range(w))
            if op in ("squeeze", "flatten") and one:
                continue
            o["grp"] = g or []
            r = units(S, X, o, g, rng, c)
            if r is None:
                continue
            o["out"] = r
            ops.append(o)
            continue
        elif op == "shuffle":
            r = S.vbt.shuffle(seed=int(rng.integers(0, 1000)))
        else:
            if op == "rebase" and (X == 0).any():
                continue
            r = column(S, o)
        o["out"] = [nums(v) for v in flat(r)]
        ops.append(o)
        if not one and how != "ints" and c(0, 1):
            u = int(rng.integers(0, w))
            q = raw(np.ascontiguousarray(X[:, u]), o)
            if q is not None:
                ops.append(o | {"out": [nums(q) if j == u else v for j, v in enumerate(o["out"])]})
    return {"n": n, "x": [nums(v) for v in X.T], "ops": ops}


def units(S, X, o, g, rng, c):
    v, op = S.vbt, o["op"]
    n = len(X)
    kw = {"group_by": g} if g is not None else {}
    if op == "squeeze":
        o |= {"f": c("sum", "min", "max"), "ddof": 0}
        r = v.squeeze_grouped({"sum": nb.sum_squeeze_nb, "min": nb.min_squeeze_nb, "max": nb.max_squeeze_nb}[o["f"]], **kw)
        return [nums(q) for q in flat(r)]
    if op == "flatten":
        o["rows"] = bool(c(0, 1))
        return [nums(q) for q in flat(v.flatten_grouped(order="C" if o["rows"] else "F", **kw))]
    if op == "counts":
        r = v.value_counts(sort_uniques=bool(c(0, 1)), sort=bool(c(0, 1)), **kw)
        o["values"] = nums(np.asarray(r.index, dtype=float))
        q = flat(r)
        return [nums(x) for x in q]
    o["f"] = c("min", "max", "mean", "var", "median", "sum", "count", "idxmin", "idxmax", "describe", "ends", "spread", "prod")
    o["ddof"] = c(0, 1)
    f = o["f"]
    codes = None if g is None else [list(dict.fromkeys(g)).index(x) for x in g]
    empty = [np.isnan(X[:, u]).all() for u in range(X.shape[1])] if g is None else [np.isnan(X[:, [i for i, k in enumerate(codes) if k == u]]).all() for u in sorted(set(codes))]
    if f == "prod":
        if g is not None:
            return None
        r = v.product()
    elif f == "var":
        r = v.std(ddof=o["ddof"], **kw) ** 2
    elif f in ("idxmin", "idxmax"):
        if g is not None and any(empty) or S.values.dtype.kind == "i":     # whole numbers: only compiled
            return None
        r = getattr(v, f)(**kw)
        pos = lambda x: float("nan") if not isinstance(x, pd.Timestamp) else float(S.index.get_loc(x))
        return [[num(pos(x))] for x in (r if isinstance(r, pd.Series) else [r])]
    elif f == "describe":
        p = sorted(set(c([0.1, 0.5], [0.25, 0.5, 0.75], [0.0, 0.5, 0.9])))
        o["perc"] = [{0.1: "1/10", 0.5: "1/2", 0.25: "1/4", 0.75: "3/4", 0.0: "0", 0.9: "9/10"}[x] for x in p]
        r = v.describe(percentiles=p, ddof=o["ddof"], **kw)
        q = flat(r).copy()
        q[:, 2] **= 2
        return [nums(x) for x in q]
    elif f == "ends":
        r = v.reduce(ends, returns_array=True, **(kw | ({"flatten": True, "order": "C"} if g is not None else {})))
        return [nums(x) for x in flat(r)]
    elif f == "spread":
        if g is not None:
            return None
        r = v.apply_and_reduce(known, spread)
    else:
        r = getattr(v, f)(**kw)
    return [[num(float(x))] for x in np.atleast_1d(np.asarray(r, dtype=float))]
