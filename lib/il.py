"""Built-in indicators and labels of the real library against Indicators.tla and Labels.tla."""
import warnings
import numpy as np, pandas as pd
import vectorbt as vbt
from vectorbt.indicators import nb as inb
from vectorbt.labels import nb as lnb
from vectorbt.labels.enums import TrendMode
from vb import num, fl, nums

MODES = {"binary": TrendMode.Binary, "cont": TrendMode.BinaryCont, "sat": TrendMode.BinaryContSat, "pct": TrendMode.PctChange, "norm": TrendMode.PctChangeNorm}


def outputs(o, d):
    """The output tables of an indicator, deviations squared, bands as middle and half width squared."""
    op, cl = o["op"], d["close"]
    kw = {} if op == "obv" else {"adjust": o["adjust"]}
    if op == "ma":
        return [vbt.MA.run(cl, o["w"], ewm=o["ewm"], **kw).ma]
    if op == "mstd":
        return [vbt.MSTD.run(cl, o["w"], ewm=o["ewm"], ddof=o["ddof"], **kw).mstd ** 2]
    if op == "bands":
        r = vbt.BBANDS.run(cl, window=o["w"], ewm=o["ewm"], alpha=fl(o["alpha"]), ddof=o["ddof"], **kw)
        u, l = np.asarray(r.upper), np.asarray(r.lower)
        return [r.middle, (u + l) / 2, (u - l) ** 2 / 4]
    if op == "rsi":
        return [vbt.RSI.run(cl, window=o["w"], ewm=o["ewm"], **kw).rsi]
    if op == "stoch":
        r = vbt.STOCH.run(d["high"], d["low"], cl, k_window=o["k"], d_window=o["w"], d_ewm=o["ewm"], **kw)
        return [r.percent_k, r.percent_d]
    if op == "macd":
        r = vbt.MACD.run(cl, fast_window=o["w"], slow_window=o["slow"], signal_window=o["sig"], macd_ewm=o["ewm"], signal_ewm=o["sewm"], **kw)
        return [r.macd, r.signal]
    if op == "atr":
        r = vbt.ATR.run(d["high"], d["low"], cl, window=o["w"], ewm=o["ewm"], **kw)
        return [r.tr, r.atr]
    if op == "obv":
        return [vbt.OBV.run(cl, d["vol"]).obv]


def labels(o, cl, pos=None, neg=None):
    op = o["op"]
    if op in ("future", "meanlb"):
        kw = {"wait": o["wait"]}
        if o["f"] in ("mean", "var"):
            kw |= {"ewm": o["ewm"], "adjust": o["adjust"]}
        if op == "meanlb":
            return vbt.MEANLB.run(cl, o["w"], **kw).labels
        if o["f"] == "var":
            return vbt.FSTD.run(cl, o["w"], ddof=o["ddof"], **kw).fstd ** 2
        return {"mean": lambda: vbt.FMEAN.run(cl, o["w"], **kw).fmean, "min": lambda: vbt.FMIN.run(cl, o["w"], **kw).fmin, "max": lambda: vbt.FMAX.run(cl, o["w"], **kw).fmax}[o["f"]]()
    if op == "fixed":
        return vbt.FIXLB.run(cl, o["n"]).labels
    if op == "extrema":
        return vbt.LEXLB.run(cl, pos, neg).labels
    if op == "trend":
        return vbt.TRENDLB.run(cl, pos, neg, mode=MODES[o["mode"]]).labels
    return vbt.BOLB.run(cl, o["w"], pos, neg, wait=o["wait"]).labels


def flat(r):
    a = np.asarray(r, dtype=float)
    return a.reshape(len(a), -1).T


def close(a, b):
    return np.isclose(a, b, rtol=1e-7, atol=1e-7, equal_nan=True)


def exhaust(ops, todo, what):
    """Everything on all series of one length; the series as columns."""
    warnings.simplefilter("ignore")
    n = len(todo[0]["x"])
    X = np.array([[fl(v) for v in t["x"]] for t in todo]).T
    df = lambda a: pd.DataFrame(a, index=pd.date_range("2024", periods=n), columns=[str(i) for i in range(len(todo))])
    d = {"close": df(X), "high": df(X + 1), "low": df(X - 0.5), "vol": df(np.repeat((np.arange(1.0, n + 1) ** 2)[:, None], len(todo), axis=1))}
    for k, o in enumerate(ops):
        if what == "labels":
            got = [flat(labels(o, d["close"], *(fl(o.get(f, "0")) for f in ("pos", "neg"))))]
            want = [np.array([[fl(v) for v in t["out"][k]] for t in todo])]
        else:
            got = [flat(r) for r in outputs(o, d)]
            want = [np.array([[fl(v) for v in t["out"][k][q]] for t in todo]) for q in range(len(got))]
        for q, (a, b) in enumerate(zip(got, want)):
            ok = close(a, b)
            if o.get("ewm") and (o["op"] == "mstd" or o.get("f") == "var" or (o["op"] == "bands" and q)):
                ok |= np.isnan(b) & (a == 0)
            yield o, q, ~ok.all(axis=1), a, b


def table(rng, c, n, w):
    how = c("ties", "walk", "quarters")
    X = rng.integers(4, 9, (n, w)).astype(float) if how == "ties" else np.cumsum(rng.integers(-3, 4, (n, w)), axis=0) + 100.0 if how == "walk" else np.round(4 * 20 * np.exp(np.cumsum(rng.normal(0, 0.06, (n, w)), axis=0))) / 4
    return np.maximum(X, 0.25)


def holes(rng, c, X):
    n, w = X.shape
    X = X.copy()
    X[rng.random((n, w)) < c(0, 0, 0.05, 0.3)] = np.nan
    if c(0, 0, 1):
        X[: int(rng.integers(0, n + 1)), 0] = np.nan
    return X


def indicators(rng):
    warnings.simplefilter("ignore")
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    n, w = int(rng.integers(1, 31)), int(rng.integers(1, 4))
    X = table(rng, c, n, w)
    gaps = c(0, 1)
    if gaps:
        X = holes(rng, c, X)
    hi, lo = X + rng.integers(0, 5, (n, w)) / 4, X - rng.integers(0, 5, (n, w)) / 4
    V = rng.integers(0, 9, (n, w)).astype(float)
    if gaps:
        V = holes(rng, c, V)
    one = w == 1 and c(0, 1)
    df = lambda a: (lambda f: f["a"] if one else f)(pd.DataFrame(a, index=pd.date_range("2024", periods=n), columns=list("abc")[:w]))
    d = {"close": df(X), "high": df(hi), "low": df(lo), "vol": df(V)}
    ops = []
    for _ in range(int(rng.integers(4, 9))):
        W = lambda: int(rng.integers(1, c(4, 8, n + 2)))
        o = {"op": c("ma", "mstd", "bands", "rsi", "obv", "macd") if gaps else c("ma", "mstd", "bands", "rsi", "stoch", "stoch", "macd", "macd", "atr", "atr", "obv")}
        o |= {"w": W(), "ewm": bool(c(0, 1)), "adjust": bool(c(0, 1)), "ddof": c(0, 1), "alpha": c("2", "1", "5/2"), "k": W(), "slow": W(), "sig": W(), "sewm": bool(c(0, 1))}
        r = [flat(q) for q in outputs(o, d)]
        o["out"] = [[nums(q[u]) for q in r] for u in range(w)]
        if o["ewm"] and o["op"] in ("mstd", "bands"):     # a spread of one known value: zero by rounding, instead of none
            kn = np.cumsum(~np.isnan(X), axis=0).T
            for u in range(w):
                for q in range(len(r)):
                    if o["op"] == "mstd" or q:
                        o["out"][u][q] = ["nan" if kn[u][i] <= 1 else v for i, v in enumerate(o["out"][u][q])]
        ops.append(o)
    return {"x": [{"close": nums(X[:, u]), "high": nums(hi[:, u]), "low": nums(lo[:, u]), "vol": nums(V[:, u])} for u in range(w)], "ops": ops}


def labelling(rng):
    warnings.simplefilter("ignore")
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    n, w = int(rng.integers(1, 31)), int(rng.integers(1, 4))
    X = table(rng, c, n, w)
    gaps = c(0, 1)
    if gaps:
        X = holes(rng, c, X)
    one = w == 1 and c(0, 1)
    F = pd.DataFrame(X, index=pd.date_range("2024", periods=n), columns=list("abc")[:w])
    S = F["a"] if one else F
    ops = []
    for _ in range(int(rng.integers(4, 9))):
        o = {"op": c("future", "future", "fixed", "meanlb", "extrema", "extrema", "trend", "trend", "trend", "breakout", "breakout")}
        o |= {"w": int(rng.integers(1, c(4, 8, n + 2))), "ewm": bool(c(0, 1)), "adjust": bool(c(0, 1)), "ddof": c(0, 1), "wait": c(0, 1, 1, 2, 3), "f": "mean", "n": int(rng.integers(0, n + 2))}
        pos = neg = None
        if o["op"] == "future":
            o["f"] = c("mean", "var", "min", "max")
            o["ewm"] &= o["f"] in ("mean", "var")
        if o["op"] == "trend":
            o["mode"] = c("binary", "pct", "norm") if gaps else c(*MODES)
        if o["op"] in ("extrema", "trend", "breakout"):
            def th():
                least = [0.0] if o["op"] == "breakout" else []
                ch = lambda size: rng.choice(least + [1 / 64, 1 / 16, 1 / 8, 1 / 4, 1 / 2], size)
                k = c("one", "one", "rows", "cols", "all")
                if k == "rows" and not one:
                    a = ch((n, 1))
                    return a, np.broadcast_to(a, (n, w))
                if k == "cols" and not one:
                    a = ch((1, w))
                    return a, np.broadcast_to(a, (n, w))
                if k == "all":
                    a = ch((n, w))
                    return (pd.Series(a[:, 0], index=F.index) if one else a), a
                a = float(ch(1)[0])
                return a, np.full((n, w), a)
            (pos, P), (neg, N) = th(), th()
            o |= {"pos": [nums(v) for v in P.T], "neg": [nums(v) for v in N.T]}
        r = flat(labels(o, S, pos, neg))
        o["out"] = [nums(v) for v in r]
        if o["op"] == "future" and o["f"] == "var" and o["ewm"]:
            kn = np.cumsum(~np.isnan(X[::-1]), axis=0)[::-1].T
            kn = np.array([[v[i + o["wait"]] if i + o["wait"] < n else 0 for i in range(n)] for v in kn])
            o["out"] = [["nan" if kn[u][i] <= 1 else v for i, v in enumerate(s)] for u, s in enumerate(o["out"])]
        ops.append(o)
    return {"x": [nums(v) for v in X.T], "ops": ops}
