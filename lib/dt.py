"""Data objects of the real library from the tables of Data.tla and back."""
import numpy as np, pandas as pd
import vectorbt as vbt

EPOCH = pd.Timestamp("2024-01-01")


def label(l, kind):
    return l if kind == "int" else EPOCH + pd.Timedelta(hours=l)


def index(ls, kind, tz=None):
    if kind == "int":
        return pd.Index(ls, dtype=int)
    ix = pd.DatetimeIndex([EPOCH + pd.Timedelta(hours=l) for l in ls])
    return ix.tz_localize(tz) if tz else ix


def table(t, kind="int", tz=None):
    ix = index(t["idx"], kind, tz)
    a = np.array([[np.nan if v == -1 else v for v in r] for r in t["rows"]], dtype=float).reshape(len(t["idx"]), len(t["cols"]))
    if t["kind"] == "series":
        return pd.Series(a[:, 0], index=ix, name=None if t["cols"][0] == -1 else "c%d" % t["cols"][0])
    return pd.DataFrame(a, index=ix, columns=["c%d" % c for c in t["cols"]])


def stamps(ix):
    if isinstance(ix, pd.DatetimeIndex):
        if ix.tz is not None:
            ix = ix.tz_convert("UTC").tz_localize(None)
        return [int(round((x - EPOCH).total_seconds() / 3600)) for x in ix]
    return [int(x) for x in ix]


def cells(a):
    return [[-1 if pd.isna(v) else int(v) for v in r] for r in np.asarray(a, dtype=float).reshape(len(a), -1 if len(a) else 0)]


def back(df):
    ser = isinstance(df, pd.Series)
    name = lambda n: -1 if n is None else int(n[1:]) if isinstance(n, str) else int(n)
    return {"kind": "series" if ser else "frame", "cols": [name(df.name)] if ser else [name(n) for n in df.columns], "idx": stamps(df.index), "rows": cells(df)}


class Source(vbt.Data):
    """What is fetched is taken from a dictionary."""
    feed = {}

    @classmethod
    def download_symbol(cls, symbol, given=None, **kw):
        return cls.feed[symbol] if given is None else given

    def update_symbol(self, symbol, given=None, **kw):
        return self.feed[symbol] if given is None else given


class Made(vbt.SyntheticData):
    """Values that tell symbol, hour and column."""

    @classmethod
    def generate_symbol(cls, symbol, index, off=0, n=0):
        rows = [[off + 10 * h + j for j in range(1, max(n, 1) + 1)] for h in stamps(index)]
        return pd.DataFrame(rows, index=index, columns=["c%d" % j for j in range(1, n + 1)], dtype=float) if n else pd.Series([float(r[0]) for r in rows], index=index)


def made(off, n, lo, hi):
    return {"kind": "frame" if n else "series", "cols": list(range(1, n + 1)) if n else [-1], "idx": list(range(lo, hi + 1)),
            "rows": [[off + 10 * h + j for j in range(1, max(n, 1) + 1)] for h in range(lo, hi + 1)]}


def state(d):
    """The tables of an object; its wrapper must agree with them."""
    out = []
    for s in d.symbols:
        x = d.data[s]
        b = back(x)
        w = d.wrapper
        assert w.index.equals(x.index) and w.ndim == x.ndim, ("wrapper", w.index, x.index)
        assert list(w.columns) == ([0 if x.name is None else x.name] if x.ndim == 1 else list(x.columns)), ("wrapper columns", w.columns, x)
        out.append(b)
    return out
