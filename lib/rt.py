"""Return metrics of the real library against Returns.tla."""
import numpy as np, pandas as pd
import vectorbt as vbt
from vectorbt.returns.accessors import ReturnsAccessor
from vb import num, nums, fl

M = ["total", "annualized", "annualized_volatility", "calmar_ratio", "omega_ratio", "sharpe_ratio", "downside_risk", "sortino_ratio", "information_ratio", "beta", "alpha",
     "tail_ratio", "common_sense_ratio", "value_at_risk", "cond_value_at_risk", "capture", "up_capture", "down_capture", "max_drawdown"]
KW = {"annualized_volatility": {"levy_alpha": "levy", "ddof": "ddof"}, "omega_ratio": {"risk_free": "rf", "required_return": "rr"}, "sharpe_ratio": {"risk_free": "rf", "ddof": "ddof"},
      "downside_risk": {"required_return": "rr"}, "sortino_ratio": {"required_return": "rr"}, "information_ratio": {"ddof": "ddof"}, "alpha": {"risk_free": "rf"},
      "value_at_risk": {"cutoff": "cutoff"}, "cond_value_at_risk": {"cutoff": "cutoff"}}
BENCH = {"information_ratio", "beta", "alpha", "capture", "up_capture", "down_capture"}
STATS = {"total_return": ("total", 100), "ann_return": ("annualized", 100), "ann_volatility": ("annualized_volatility", 100), "sharpe_ratio": ("sharpe_ratio", 1), "calmar_ratio": ("calmar_ratio", 1),
         "omega_ratio": ("omega_ratio", 1), "sortino_ratio": ("sortino_ratio", 1), "tail_ratio": ("tail_ratio", 1), "common_sense_ratio": ("common_sense_ratio", 1), "value_at_risk": ("value_at_risk", 1),
         "alpha": ("alpha", 1), "beta": ("beta", 1)}


def two(x):
    a = np.asarray(x, dtype=float)
    return a[:, None] if a.ndim == 1 else a


def kwargs(f, k, given):
    """Arguments of a metric, unless they are the defaults of the accessor."""
    return {} if not given else {a: k[b] for a, b in KW.get(f, {}).items()}


def plain(acc, k, given=True, bench=None):
    out = []
    for f in M:
        kw = kwargs(f, k, given)
        if bench is not None and f in BENCH:
            kw["benchmark_rets"] = bench
        out.append(np.atleast_1d(np.asarray(getattr(acc, f)(**kw), dtype=float)))
    return out


def rolling(acc, k, win, minp, given=True, bench=None):
    out = []
    for f in M:
        kw = kwargs(f, k, given)
        if bench is not None and f in BENCH:
            kw["benchmark_rets"] = bench
        if given:
            kw.update(window=win, minp=minp)
        out.append(two(getattr(acc, "rolling_" + f)(**kw)))
    return out


def series(rng, c, t, m):
    if c(0, 1):
        x = rng.integers(-8, 10, (t, m)) / 16
        if c(0, 0, 1):
            x = np.where(rng.random((t, m)) < 0.5, x[0], x)
        if c(0, 0, 0, 1):
            x[rng.random((t, m)) < 0.15] = -1
    else:
        x = rng.normal(0.001, c(0.01, 0.05, 0.2), (t, m)).clip(-0.95)
    if c(0, 1):
        x = np.where(rng.random((t, m)) < c(0.1, 0.4), np.nan, x)
    if c(0, 0, 0, 0, 1):
        x = np.where(rng.random((t, m)) < 0.6, 0.0, x)
    return x


def cases(rng, jit=False):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    t, m = int(rng.integers(1, 22)), int(rng.integers(1, 4))
    x, b = series(rng, c, t, m), series(rng, c, t, m)
    days = int(rng.integers(1, 4))
    idx = pd.date_range("2021-12-20", periods=t, freq=f"{days}D")
    if c(0, 0, 1):
        keep = np.sort(rng.permutation(t * 2)[:t])
        idx = pd.date_range("2021-12-20", periods=2 * t, freq="D")[keep]
        days = 1
    year = c(365, 252, 10, days, 100)
    k = {"ann": year / days, "rf": c(0.0, 0.0, 1 / 64, 0.01), "rr": c(0.0, 0.0, 1 / 32, 0.02, -0.01), "ddof": c(1, 0, 1, 2), "levy": c(2.0, 2.0, 1.5), "cutoff": c(0.05, 0.25, 0.5, 0.1, 0.0, 1.0)}
    if len(np.unique(x[~np.isnan(x)])) < (~np.isnan(x)).sum():
        # equal returns: whether their deviation is zero is exact only in halves of halves
        k["rf"] = c(0.0, 1 / 64)
    win = int(rng.integers(1, t + 3))
    minp = c(None, 1, int(rng.integers(0, win + 1)))
    one = m == 1 and c(0, 1)
    obj = pd.Series(x[:, 0], index=idx, name="a") if one else pd.DataFrame(x, index=idx, columns=[f"c{j}" for j in range(m)])
    given = c(True, True, False)
    kw = dict(freq=f"{days}D", year_freq=f"{year} days")
    if not given:
        kw["defaults"] = dict(window=win, minp=minp, ddof=k["ddof"], risk_free=k["rf"], levy_alpha=k["levy"], required_return=k["rr"], cutoff=k["cutoff"])
    # the benchmark: of the same shape, one series for all columns, or given to each metric
    how = c("same", "one", "arg")
    if how == "one":
        b = np.repeat(b[:, :1], m, axis=1)
    bo = pd.Series(b[:, 0], index=idx, name="b") if how == "one" or one else pd.DataFrame(b, index=idx, columns=obj.columns)
    if how == "one" and not one and c(0, 1):
        bo = b[:, :1]
    acc = obj.vbt.returns(benchmark_rets=None if how == "arg" else bo, **kw)
    cols = list(range(m))
    if not one and m > 1 and how != "arg" and c(0, 0, 1):
        cols = [int(v) for v in rng.permutation(m)[:int(rng.integers(1, m + 1))]]
        acc = acc.iloc[:, cols] if len(cols) > 1 or t == 1 or c(0, 1) else acc.iloc[:, cols[0]]
    arg = bo if how == "arg" else None
    p, r = plain(acc, k, given, arg), rolling(acc, k, win, minp, given, arg)
    start = c(0.0, 1.0, 100.0)
    cum = two(acc.cumulative(start_value=start))
    dd = two(acc.drawdown())
    worst = np.atleast_1d(np.asarray(acc.drawdowns.max_drawdown(), dtype=float))
    # values
    v = c(rng.integers(-2, 4, (t, m)).astype(float), np.round(rng.uniform(1, 9, (t, m)), 2))
    if c(0, 1):
        v = np.where(rng.random((t, m)) < 0.2, np.nan, v)
    first = c(np.full(m, np.nan), v[0] * 1.0, np.full(m, 2.0), np.arange(m) - 1.0)
    vo = pd.Series(v[:, 0], index=idx) if one else pd.DataFrame(v, index=idx)
    fo = first[0] if (first == first[0]).all() or one else first
    if one:
        first = np.array([fo])
    rets = two(ReturnsAccessor.from_value(vo, init_value=fo).obj)
    g = np.round(rng.uniform(1, 9, (t, m)), 2)
    go = pd.Series(g[:, 0], index=idx) if one else pd.DataFrame(g, index=idx)
    i0 = float(rng.integers(1, 9))
    back = two(ReturnsAccessor.from_value(go, init_value=i0).cumulative(start_value=i0))
    rule = c("7D", "3D", "30D", "1D", "MS")
    sampled = acc.daily() if rule == "1D" and days == 1 and c(0, 1) else acc.resample_total_return(rule)
    parts = []
    bins = pd.Series(range(t), index=idx).resample(rule)
    same = len(sampled) == t and rule == "1D" and (sampled.index == idx).all()
    for _, q in ((None, [j]) for j in range(t)) if same else ((s, list(q)) for s, q in bins):
        parts.append([int(j) + 1 for j in q])
    sampled = two(sampled)
    if same:
        # already daily: returned as they are, missing ones included
        sampled = np.where(np.isnan(sampled), 0.0, sampled)
    stats = None
    if t > 1 and c(0, 0, 0, 1) and not jit:
        names = [s for s in STATS if how != "arg" or s not in ("alpha", "beta")]
        stats = acc.stats(metrics=names, agg_func=None, silence_warnings=True)
        stats = (names, [[float(stats.iloc[q])] if isinstance(stats, pd.Series) else [float(u) for u in stats.iloc[:, q]] for q in range(len(names))])
    base = {"ann": num(k["ann"]), "rf": num(k["rf"]), "rr": num(k["rr"]), "ddof": k["ddof"], "levy": num(k["levy"]), "cutoff": num(k["cutoff"])}
    dflt = dict(base) if not given else {**base, "rf": "0", "rr": "0", "ddof": 1, "levy": "2", "cutoff": "1/20"}
    out = []
    for a, j in enumerate(cols):
        out.append({"x": nums(x[:, j]), "b": nums(b[:, j]), "k": base, "k2": dflt, "win": win, "minp": win if minp is None else minp, "plain": [num(q[a]) for q in p], "roll": [nums(q[:, a]) for q in r],
                    "start": num(start), "cum": nums(cum[:, a]), "dd": nums(dd[:, a]), "worst": num(worst[a]), "value": nums(v[:, j]), "first": num(first[j]), "rets": nums(rets[:, j]),
                    "goods": nums(g[:, j]), "back": nums(back[:, j]), "parts": parts, "sampled": nums(sampled[:, a]),
                    "stats": [] if stats is None else [[STATS[s][0], num(q[a]), num(STATS[s][1])] for s, q in zip(*stats)]})
    return out


def exhaust(todo):
    """All emitted series of one length as columns of one frame."""
    x = np.array([[fl(v) for v in t["x"]] for t in todo]).T
    b = np.array([[fl(v) for v in t["b"]] for t in todo]).T
    k0 = todo[0]["k"]
    k = {"rf": fl(k0["rf"]), "rr": fl(k0["rr"]), "ddof": int(k0["ddof"]), "levy": fl(k0["levy"]), "cutoff": fl(k0["cutoff"])}
    acc = pd.DataFrame(x).vbt.returns(benchmark_rets=pd.DataFrame(b), freq="1D", year_freq="%d days" % int(fl(k0["ann"])))
    return plain(acc, k), rolling(acc, k, int(todo[0]["win"]), int(todo[0]["minp"])), two(acc.cumulative()), two(acc.drawdown())
