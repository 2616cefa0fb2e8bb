"""Splits of the real library against Splits.tla."""
import numpy as np, pandas as pd
import vectorbt as vbt
from vectorbt.generic.splitters import RangeSplitter, RollingSplitter, ExpandingSplitter, split_ranges_into_sets, BaseSplitter
from vb import num, fl, nums

CLS = {"range": RangeSplitter, "given": RangeSplitter, "rolling": RollingSplitter, "expanding": ExpandingSplitter}


def val(l):
    return fl(l) if "/" in l else int(l)


def kwargs(o, index=None, rng=None):
    """Arguments of a request; sets and sides per range only where they differ."""
    kw = {} if o["min"] == 1 else {"min_len": o["min"]}
    if o["n"]:
        kw["n"] = o["n"]
    if o["len"]:
        kw["window_len" if o["kind"] == "rolling" else "range_len"] = val(o["len"])
    if o["kind"] == "given":
        kw |= {"start_idxs": o["start"], "end_idxs": o["end"]}
        if index is not None:
            kw |= {"start_idxs": index[o["start"]], "end_idxs": index[o["end"]]}
    sets = [tuple(val(l) for l in s) for s in o["sets"]]
    if any(sets):
        kw["set_lens"] = sets[0] if len(set(sets)) == 1 else sets
        kw["left_to_right"] = o["ltr"][0] if len(set(o["ltr"])) == 1 else list(o["ltr"])
    return kw


def plain(o):
    """The sets of every split as first and last row, or None if refused."""
    try:
        return [[rows(s) for s in r] for r in CLS[o["kind"]]().split(np.arange(o["rows"]), **kwargs(o))]
    except ValueError:
        return None


def rows(a):
    a = np.asarray(a)
    assert len(a) and np.array_equal(a, np.arange(a[0], a[0] + len(a))), a
    return [int(a[0]), int(a[-1])]


class Custom(BaseSplitter):
    def split(self, X, ranges=None, **kw):
        for r in ranges:
            yield tuple(np.arange(a, b + 1) for a, b in r)


def history(rng):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    n, w = int(rng.integers(1, 61)), int(rng.integers(1, 4))
    X = rng.permutation(n * w).reshape(n, w).astype(float)
    X[rng.random((n, w)) < 0.05] = np.nan
    index = c(pd.date_range("2024", periods=n), pd.Index([f"i{(7 * i) % n if n % 7 else i}" for i in range(n)]), pd.RangeIndex(10, 10 + n))
    one = w == 1 and c(0, 1)
    F = pd.DataFrame(X, index=index, columns=list("abc")[:w])
    S = F["a"] if one else F
    frac = lambda: c("1/2", "1/4", "3/4", "1/10", "3/10", "7/10", "29/100", "1/3")
    ops = []
    for _ in range(int(rng.integers(4, 9))):
        kind = c("range", "rolling", "expanding", "given", "custom")
        o = {"kind": kind, "rows": n, "n": 0, "len": "", "min": c(1, 1, 2, 5), "start": [], "end": []}
        if kind == "expanding":
            o["min"] = c(1, max(1, n // 3), n // 2 + 1)
        if kind == "custom":
            m = int(rng.integers(1, 4))
            o["w"] = [[(lambda a: [a, int(rng.integers(a, n))])(int(rng.integers(0, n))) for _ in range(m)] for _ in range(int(rng.integers(1, 4)))]
        elif kind == "given":
            m = int(rng.integers(1, 5))
            o["start"] = [int(rng.integers(0, n)) for _ in range(m)]
            o["end"] = [int(rng.integers(a, n)) for a in o["start"]]
            o["n"] = c(0, 0, int(rng.integers(1, m + 2)))
        else:
            o["n"] = c(0, int(rng.integers(1, min(n, 12) + 1)))
            if kind != "expanding":
                o["len"] = c("", num(float(rng.integers(1, n + 2))), frac())
                o["n"] = o["n"] or (0 if o["len"] else 1)
        cut = lambda: [c(num(float(rng.integers(1, max(2, n // 4)))), frac()) for _ in range(int(rng.integers(1, 4)))]
        if c(0, 1):
            q = len(cut())
            o["sets"] = [[c(num(float(rng.integers(1, max(2, n // 5)))), frac()) for _ in range(q)] for _ in range(n + 5)]
            o["ltr"] = [bool(c(0, 1)) for _ in range(n + 5)]
        else:
            o["sets"], o["ltr"] = [c([], cut(), cut())] * (n + 5), [bool(c(0, 1))] * (n + 5)
        keys = None
        try:
            if kind == "custom":
                r = S.vbt.split(Custom(), ranges=o["w"])
            else:
                kw = kwargs(o, index if kind == "given" and c(0, 1) else None)
                if kind == "given" and len(o["start"]) > 1 and len(set(o["start"])) == 1 and c(0, 1):
                    kw["start_idxs"] = kw["start_idxs"][:1]
                if c(0, 1) and o["n"]:
                    keys = kw["keys"] = pd.Index([f"k{i}" for i in range(o["n"])], name="key")
                r = getattr(S.vbt, ("range" if kind == "given" else kind) + "_split")(**kw) if c(0, 1) else S.vbt.split(CLS[kind](), **kw)
            r = [r] if isinstance(r[0], pd.DataFrame) else list(r)
            o |= {"refused": False, "sizes": [len(r[0][1]), len(r)], "rows_of": [], "cells": []}
            for t, ix in r:
                names = list(keys) if keys is not None else [f"split_{i}" for i in range(len(ix))]
                assert [x.name for x in ix] == names, [x.name for x in ix]
                lab = t.columns.get_level_values(0) if not one else t.columns
                if isinstance(lab, pd.MultiIndex):
                    lab = lab.get_level_values(0)
                assert list(lab) == [x for x in (list(keys) if keys is not None else range(len(ix))) for _ in range(w)], list(t.columns)
                if not one and t.columns.nlevels > 1:
                    assert list(t.columns.get_level_values(-1)) == list(F.columns) * len(ix), list(t.columns)
                o["rows_of"].append([rows(index.get_indexer(x)) for x in ix])
                o["cells"].append([nums(v) for v in np.asarray(t, dtype=float).T])
        except ValueError as e:
            o |= {"refused": True}
        ops.append(o)
    return {"x": [nums(v) for v in X.T], "ops": ops}
