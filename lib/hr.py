"""Heir.tla on real objects."""
import os
import numpy as np, pandas as pd
import vectorbt as vbt
from vectorbt.utils.config import Config

N = 6
IDX = pd.date_range("2024-01-01", periods=N, freq="D")
KINDS = ["portfolio", "orders", "trades", "drawdowns", "ranges", "mapped", "series", "signals", "returns", "ohlcv", "data"]


class Sym(vbt.Data):
    @classmethod
    def download_symbol(cls, symbol, **kw):
        return pd.DataFrame({"p": np.arange(N, dtype=float), "q": np.ones(N)}, index=IDX)


def make(kind, rng):
    fr = lambda x: pd.DataFrame(x, index=IDX, columns=["a", "b", "c"])
    close = fr(np.round(rng.uniform(1, 9, (N, 3)), 1))
    if kind in ("portfolio", "orders", "trades", "logs", "records", "mapped"):
        pf = vbt.Portfolio.from_orders(close, fr(rng.integers(-3, 4, (N, 3)).astype(float)), log=True, freq="D")
        return {"portfolio": lambda: pf, "records": lambda: vbt.Records(pf.wrapper, pf.order_records), "mapped": lambda: pf.orders.map_field("price")}.get(kind, lambda: getattr(pf, kind))()
    if kind == "drawdowns":
        return vbt.Drawdowns.from_ts(close, wrapper_kwargs=dict(freq="D"))
    if kind == "ranges":
        return vbt.Ranges.from_ts(close.where(close > 4), wrapper_kwargs=dict(freq="D"))
    if kind == "series":
        return close.vbt(freq="D")
    if kind == "signals":
        return (close > 4).vbt.signals(freq="D")
    if kind == "returns":
        return close.pct_change().vbt.returns(freq="D")
    if kind == "ohlcv":
        return pd.DataFrame(np.round(rng.uniform(1, 9, (N, 5)), 1), index=IDX, columns=["Open", "High", "Low", "Close", "Volume"]).vbt.ohlcv(freq="D")
    return Sym.download(["x", "y"])


def heir(kind, obj, rng, scratch):
    """Something made of the object, and how."""
    hows = ["copy", "shallow", "deep", "hybrid", "replace", "reload", "file"]
    if kind != "data":
        hows += ["cols", "cols"]
        if kind != "ohlcv" and obj.wrapper.ndim == 2:
            hows += ["regroup"]
    else:
        hows += ["cols"]
    if kind in ("orders", "trades", "drawdowns", "ranges", "mapped"):
        hows += ["mask"]
    how = hows[int(rng.integers(len(hows)))]
    if how == "copy":
        return obj.copy(), how
    if how in ("shallow", "deep", "hybrid"):
        return obj.copy(copy_mode=how), how
    if how == "replace":
        return obj.replace(wrapper=obj.wrapper.replace(freq="2D")), how
    if how == "reload":
        return type(obj).loads(obj.dumps()), how
    if how == "file":
        f = os.path.join(scratch, "heir%d.pkl" % int(rng.integers(1 << 40)))
        obj.save(f)
        out = type(obj).load(f)
        os.remove(f)
        return out, how
    if how == "regroup":
        return obj.regroup(["g"] * (len(obj.wrapper.columns) - 1) + ["h"]), how
    if how == "mask":
        return obj.apply_mask(np.arange(len(obj.values)) % 3 != 1), how
    if kind == "ohlcv":
        return obj.iloc[:, ::-1], how
    if kind == "data" or obj.wrapper.ndim == 1 or kind == "portfolio" and False:
        return (obj.iloc[1:] if kind in ("data", "series", "signals", "returns") else obj.copy()), how
    if obj.wrapper.grouper.is_grouped():
        return obj.iloc[[0]] if obj.wrapper.get_shape_2d()[1] else obj.copy(), how
    return obj.iloc[:, :2] if kind in ("series", "signals", "returns") else obj.iloc[:2], how


def read(kind, obj, firsts):
    """Versions per table and name; what stats() says is among them."""
    out = {}
    for t in ("metrics", "subplots"):
        tab = getattr(obj, t)
        r = {}
        for n in ("kin", "n1", "n2"):
            key = firsts[t] if n == "kin" else n
            d = tab.get(key)
            r[n] = 0 if d is None else d.get("ver", -1)
        out[t] = r
    return out


def run(kind, prog, rng, scratch):
    objs = [make(kind, rng)]
    firsts = {t: list(getattr(objs[0], t))[0] for t in ("metrics", "subplots")}
    keys = {t: set(getattr(objs[0], t)) for t in ("metrics", "subplots")}
    done = []
    for step in prog:
        op = step["o"]
        done.append(dict(op))
        if op["op"] in ("copy", "new"):
            if op["op"] == "copy":
                new, done[-1]["how"] = heir(kind, objs[op["x"] - 1], rng, scratch)
            else:
                new = make(kind, rng)
            objs.append(new)
        else:
            tab = getattr(objs[op["x"] - 1], op["t"])
            if op["op"] == "reset":
                tab.reset()
            else:
                n = firsts[op["t"]] if op["n"] == "kin" else op["n"]
                if op["op"] == "drop":
                    del tab[n]
                else:
                    v = op["v"]
                    tab[n] = dict(title="%s v%d" % (n, v), ver=v, calc_func=lambda ver: ver) if op["t"] == "metrics" else dict(title="%s v%d" % (n, v), ver=v, plot_func=lambda **kw: None)
        got = [read(kind, o, firsts) for o in objs]
        if got != step["want"]:
            return {"kind": kind, "ops": done, "want": step["want"], "got": got}
        for o in objs:
            for t in ("metrics", "subplots"):
                if set(getattr(o, t)) | {firsts[t]} - {"n1", "n2"} != (keys[t] | set(getattr(o, t)) & {"n1", "n2"}):
                    return {"kind": kind, "ops": done, "table": t, "keys": sorted(getattr(o, t))}
    # the tables show them
    for o, w in zip(objs, prog[-1]["want"]):
        names = [n for n in ("n1", "n2") if w["metrics"][n] > 0]
        if names:
            s = o.stats(names, agg_func=lambda s: s.iloc[0], silence_warnings=True, settings=dict(check_is_not_grouped=False))
            want = [("%s v%d" % (n, w["metrics"][n]), w["metrics"][n]) for n in names]
            if list(zip(s.index, s.tolist())) != want:
                return {"kind": kind, "ops": done, "want": want, "table": str(s)}
    return None
