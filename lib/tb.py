"""Tables the library ships with: what the rows of Tables.tla stand for on real objects."""
import math
import warnings
import numpy as np, pandas as pd
import vectorbt as vbt

N, COLS, GRP, BY = 14, ["a", "b", "c"], ["g1", "g1", "g2"], ["h1", "h2", "h2"]
TAGS = {"": None, "trades": "trades", "duration": ["duration"], "closed and not winning": "closed and not winning", "wrapper or index": ["wrapper", "index"], "not wrapper": "not wrapper"}
TYPES = {"entry": ["entrytrades", 0], "exit": ["exit_trades", 1], "pos": ["positions", 2]}


class MyData(vbt.Data):
    @classmethod
    def download_symbol(cls, symbol, **kw):
        raise NotImplementedError


def make(kind, o, rng, flat):
    """A real object of a kind, and what else the calculations refer to."""
    idx = pd.date_range("2024-01-01", periods=N, freq="D") if o["freq"] else pd.DatetimeIndex(np.datetime64("2024-01-01", "D") + np.cumsum(np.arange(N) % 3 + 1))
    idx.freq = None
    fq = "1D" if o["freq"] else None
    grp = pd.Index(GRP) if o["by"] in ("own", "no") else None
    frame = lambda x: pd.Series(x[:, 0], index=idx, name="a") if flat else pd.DataFrame(x, index=idx, columns=COLS)
    kw = dict(freq=fq)
    if grp is not None:
        kw["group_by"] = grp
    O = None
    if kind in ("portfolio", "entry_trades", "exit_trades", "positions", "orders", "logs", "mapped", "records"):
        close = frame(np.round(rng.uniform(1, 9, (N, 3)), 1))
        size = frame(np.where(rng.random((N, 3)) < 0.5, rng.integers(-6, 7, (N, 3)), 0).astype(float))
        # columns that shall be regrouped must not share cash
        P = vbt.Portfolio.from_orders(close, size, fees=0.01, fixed_fees=0.1, init_cash=100.0, log=True, freq=fq, group_by=grp)
        if kind == "portfolio":
            return P, P, O
        r = {"logs": lambda: P.logs, "mapped": lambda: P.orders.side if o["open"] else P.orders.map_field("price"), "records": lambda: vbt.Records(P.wrapper, P.order_records)}
        return r.get(kind, lambda: getattr(P, kind))(), None, O
    if kind in ("ranges", "drawdowns"):
        x = np.round(rng.uniform(1, 9, (N, 3)), 1)
        if kind == "ranges":
            x[rng.random((N, 3)) < 0.4] = np.nan
        cls = vbt.Ranges if kind == "ranges" else vbt.Drawdowns
        return cls.from_ts(frame(x), wrapper_kwargs=dict(freq=fq, group_by=grp)), None, O
    if kind == "series":
        x = np.round(rng.uniform(-5, 9, (N, 3)), 1)
        x[rng.random((N, 3)) < 0.1] = np.nan
        if o["open"]:
            return frame(rng.integers(0, 3, (N, 3))).vbt(mapping={0: "low", 1: "mid", 2: "high"}, **kw), None, O
        return frame(x).vbt(**kw), None, O
    if kind == "returns":
        x = frame(np.round(rng.normal(0, 0.05, (N, 3)), 3))
        if o["other"]:
            kw["benchmark_rets"] = frame(np.round(rng.normal(0, 0.05, (N, 3)), 3))
        return x.vbt.returns(**kw), None, O
    if kind == "signals":
        x = frame(rng.random((N, 3)) < 0.4)
        if o["other"]:
            O = frame(rng.random((N, 3)) < 0.4)
        return x.vbt.signals(**kw), None, O
    d = {}
    for s in ("S", "T"):
        x = np.round(rng.uniform(1, 9, (N, 3)), 1)
        x[rng.random((N, 3)) < 0.2] = np.nan
        d[s] = frame(x)
    return MyData.from_data(d, download_kwargs={}), None, O


def tok(x):
    if x is None or x is pd.NaT or x is pd.NA:
        return "nan"
    if isinstance(x, (pd.Timedelta, np.timedelta64)):
        return ("td", float(pd.Timedelta(x).value))
    if isinstance(x, (pd.Timestamp, np.datetime64)):
        return str(pd.Timestamp(x))
    if isinstance(x, (int, float, np.number, bool, np.bool_)):
        return "nan" if math.isnan(float(x)) else float(x)
    return str(x)


def close(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return abs(a[1] - b[1]) <= 1000 + 1e-9 * abs(a[1])
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b


def counts(vc):
    return {k: vc.loc[k] for k in vc.index}


class Objects:
    """Objects are shared between cases, as users ask one object for many tables."""

    def __init__(self, seed):
        self.seed, self.made, self.vals = seed, {}, {}

    def get(self, o, flat):
        k = (o["kind"], o["open"] and o["kind"] in ("mapped", "series"), o["other"], o["freq"], o["by"] in ("own", "no"), flat)
        if k not in self.made:
            self.made[k] = make(o["kind"], o, np.random.default_rng([self.seed] + [hash_(str(k))]), flat)
        return k, self.made[k]

    def value(self, k, A, P, O, G, f):
        key = (k, None if G is None else str(G), f)
        if key not in self.vals:
            w = A.wrapper
            H = w.freq is not None
            env = dict(A=A, P=P, O=O, G=G, w=w, H=H, counts=counts, td=lambda x: w.to_timedelta(x) if H else x)
            self.vals[key] = eval(f, env)
        return self.vals[key]


def hash_(s):
    h = 7
    for ch in s:
        h = (h * 131 + ord(ch)) % (2 ** 31)
    return h


def compare(objs, case, rng):
    """Problems with one table: list of (clause, detail)."""
    o, rows = case["o"], case["rows"]
    flat = o["by"] == "plain" and rng.random() < 0.3 and o["out"] != "column"
    k, (A, P, O) = objs.get(o, flat)
    G = {"own": None, "plain": None, "no": False, "by": pd.Index(BY)}[o["by"]]
    units = list(dict.fromkeys(GRP if o["by"] == "own" else BY)) if o["by"] in ("own", "by") else (["a"] if flat else COLS)
    settings, kw = {}, {}
    if o["kind"] == "portfolio":
        if o["type"] != "none":
            t = TYPES[o["type"]]
            settings["trades_type"] = t[int(rng.integers(2))]
        if o["open"] or rng.random() < 0.5:
            settings["incl_open"] = o["open"]
        if o["asset"] or rng.random() < 0.5:
            settings["use_asset_returns"] = o["asset"]
    elif o["kind"] in ("entry_trades", "exit_trades", "positions") and (o["open"] or rng.random() < 0.5):
        settings["incl_open"] = o["open"]
    elif o["kind"] == "drawdowns" and (o["open"] or rng.random() < 0.5):
        settings["incl_active"] = o["open"]
    elif o["kind"] == "signals" and o["other"]:
        settings.update(other=O, from_other=o["open"])
    if settings:
        kw["settings"] = settings
    if TAGS[o["sel"]] is not None:
        kw["tags"] = TAGS[o["sel"]]
    if G is not None:
        kw["group_by"] = G
    unit = units[int(rng.integers(len(units)))]
    agg = None
    if o["out"] == "column":
        kw["column"] = unit
    elif o["out"] == "frame":
        kw["agg_func"] = None
    else:
        agg = [lambda s: s.mean(), lambda s: s.max(), lambda s: s.iloc[0]][int(rng.integers(3))]
        if o["kind"] in ("series", "mapped", "signals") or rng.random() < 0.5:
            agg = lambda s: s.iloc[-1]
        kw["agg_func"] = agg
    want, ign = [], {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for r in rows:
            v = objs.value(k, A, P, O, G, r["f"])
            if o["type"] in ("entry", "pos"):
                # as if the setting was not given
                u = objs.value(k, A, P, O, G, r["f"].replace("P.get_entry_trades", "P.get_exit_trades").replace("P.get_positions", "P.get_exit_trades"))
                if isinstance(u, pd.Series):
                    u = list(u[[unit]]) if o["out"] == "column" else [agg(u)] if o["out"] == "agg" else list(u)
                ign[r["t"]] = [tok(z) for z in (u if isinstance(u, list) else [u])]
            parts = [(r["t"][:-1] + str(x), y) for x, y in v.items()] if r["t"].endswith(": *") else [(r["t"], v)]
            for t, y in parts:
                if isinstance(y, pd.Series):
                    if list(y.index) != units:
                        return [("calculation is per unit", {"case": o, "row": t, "index": [str(z) for z in y.index]})]
                    if o["out"] == "column":
                        y = [y[unit]]
                    elif o["out"] == "agg":
                        if not r["ag"]:
                            continue
                        y = [agg(y)]
                    else:
                        y = list(y)
                else:
                    y = [y] * (len(units) if o["out"] == "frame" and len(units) > 1 else 1)
                want.append((t, [tok(z) for z in y]))
        out = A.stats(silence_warnings=True, **kw)
    if out is None:
        got = []
    elif isinstance(out, pd.DataFrame):
        got = [(str(c), [tok(z) for z in out[c]]) for c in out.columns]
        if out.index.tolist() != units:
            return [("labels of a table", {"case": o, "index": [str(z) for z in out.index]})]
    else:
        got = [(str(a), [tok(b)]) for a, b in zip(out.index, out.tolist())]
    bad = []
    info = lambda **z: dict(case=o, kw={a: str(b) for a, b in kw.items()}, flat=flat, **z)
    if [g[0] for g in got] != [x[0] for x in want]:
        bad.append(("rows of a shipped table", info(want=[x[0] for x in want], got=[g[0] for g in got])))
    else:
        for (t, x), (_, g) in zip(want, got):
            if len(x) != len(g) or not all(close(p, q) for p, q in zip(x, g)):
                ignored = t in ign and len(ign[t]) == len(g) and all(close(p, q) for p, q in zip(ign[t], g))
                bad.append(("setting trades_type of Portfolio.stats" if ignored else "value of a shipped table", info(row=t, want=x, got=g)))
    return bad
