"""Signal accessors of the real library against SignalSeq.tla."""
import numpy as np, pandas as pd
import vectorbt as vbt
from vb import num
BIG = {"signal": "signal", "signal-gaps": "signal-gaps", "partition": "partition"}


def rank(x, mode, reset, after):
    if mode == "partition":
        return x.vbt.signals.partition_pos_rank(reset_by=reset, after_false=after)
    return x.vbt.signals.pos_rank(allow_gaps=mode == "signal-gaps", reset_by=reset, after_false=after)


def ranges(x, kind, y):
    s = x.vbt.signals
    return {"between": lambda: s.between_ranges(), "two": lambda: s.between_ranges(other=y), "other": lambda: s.between_ranges(other=y, from_other=True),
            "parts": lambda: s.partition_ranges(), "gaps": lambda: s.between_partition_ranges()}[kind]()


def by_col(r, ncols):
    out = [[] for _ in range(ncols)]
    for rec in r.values:
        out[int(rec["col"])].append([int(rec["start_idx"]), int(rec["end_idx"]), 1 if rec["status"] == 0 else 0])
    return out


def cols(df):
    return [[v.item() for v in c] for c in np.asarray(df).reshape(len(df), -1).T]


def exhaust(todo):
    """What the library derives from the pairs of one length, in the form of SignalSeqMC's output."""
    n = len(todo[0]["a"])
    A, B = (pd.DataFrame(np.array([t[k] for t in todo], dtype=bool).T) for k in "ab")
    got = [{"a": t["a"], "b": t["b"], "clean": [], "rank": [[[None] * 2 for _ in range(2)] for _ in range(3)]} for t in todo]
    for first in (False, True):
        en, ex = A.vbt.signals.clean(B, entry_first=first)
        for g, e, x in zip(got, cols(en), cols(ex)):
            g["clean"].append({"en": e, "ex": x})
    for m, mode in enumerate(BIG):
        for f in (0, 1):
            for q in (0, 1):
                for g, v in zip(got, cols(rank(A, mode, B if q else None, bool(f)))):
                    g["rank"][m][f][q] = v
    for k in ("between", "two", "other", "parts", "gaps"):
        for g, v in zip(got, by_col(ranges(A, k, B), len(todo))):
            g[k] = v
    nth = [A.vbt.signals.nth_index(i - n - 1, return_labels=False).values for i in range(2 * n + 2)]
    avg = A.vbt.signals.norm_avg_index().values
    for j, g in enumerate(got):
        g["nth"] = [int(v[j]) for v in nth]
        g["avg"] = float(avg[j])
    return got


def history(rng):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    n, w = int(rng.integers(1, 40)), int(rng.integers(1, 5))
    p = c(0.05, 0.3, 0.5, 0.8, 1.0)
    A, B = (pd.DataFrame(rng.random((n, w)) < q, columns=list("abcd")[:w], index=pd.date_range("2024", periods=n)) for q in (p, c(0.1, 0.4, 0.7)))
    if c(0, 0, 0, 1):
        A.iloc[:, 0] = False
    if w == 1 and c(0, 1):
        A, B = A["a"], B["a"]
    ca, cb = cols(A), cols(B)
    ops = []
    for _ in range(6):
        op = c("clean", "rank", "select", "ranges", "index", "stats")
        if op == "clean":
            f = bool(c(0, 1))
            en, ex = A.vbt.signals.clean(B, entry_first=f)
            ops += [{"op": op, "a": x, "b": y, "first": f, "en": e, "ex": q} for x, y, e, q in zip(ca, cb, cols(en), cols(ex))]
        elif op == "rank":
            mode, reset, after = c(*BIG), bool(c(0, 1)), bool(c(0, 1))
            r = rank(A, mode, B if reset else None, after)
            ops += [{"op": op, "a": x, "b": y, "mode": mode, "reset": reset, "after": after, "out": o} for x, y, o in zip(ca, cb, cols(r))]
        elif op == "select":
            gaps, reset, after, nn, fr = bool(c(0, 1)), bool(c(0, 1)), bool(c(0, 1)), c(0, 0, 1, 2, 3), bool(c(0, 1))
            kw = dict(allow_gaps=gaps, reset_by=B if reset else None, after_false=after)
            s = A.vbt.signals
            r = s.from_nth(nn, **kw) if fr else s.first(**kw) if nn == 0 and c(0, 1) else s.nth(nn, **kw)
            if nn == 0 and not fr and not gaps and not reset and not after and c(0, 1):
                r = s.clean()
            ops += [{"op": op, "a": x, "b": y, "mode": "signal-gaps" if gaps else "signal", "reset": reset, "after": after, "n": nn, "from": fr, "out": o} for x, y, o in zip(ca, cb, cols(r))]
        elif op == "ranges":
            k = c("between", "two", "other", "parts", "gaps")
            r = by_col(ranges(A, k, B), w)
            ops += [{"op": op, "kind": k, "a": x, "b": y, "out": o} for x, y, o in zip(ca, cb, r)]
        else:
            gb = None if isinstance(A, pd.Series) or c(0, 1) else np.sort(rng.integers(0, 3, w))
            groups = [[j] for j in range(w)] if gb is None else [list(np.flatnonzero(gb == g)) for g in np.unique(gb)]
            s = A.vbt.signals
            arr = lambda x: np.atleast_1d(np.asarray(x))
            if op == "index":
                nn = int(rng.integers(-4, 5))
                lab = bool(c(0, 1))
                v = s.nth_index(nn, return_labels=lab, group_by=gb)
                v = list(v) if isinstance(v, pd.Series) else [v]
                if lab:
                    v = [-1 if pd.isna(x) else A.index.get_loc(x) for x in v]
                im = s.index_mapped()
                ops += [{"op": op, "a": ca[g[0]], "as": [ca[j] for j in g], "n": nn, "nth": int(x),
                         "where": [int(q) for q in im.values[im.col_arr == g[0]]]} for g, x in zip(groups, v)]
            else:
                tot, rt = arr(s.total(group_by=gb)), arr(s.rate(group_by=gb))
                tp, pr = arr(s.total_partitions(group_by=gb)), arr(s.partition_rate(group_by=gb))
                av = arr(s.norm_avg_index(group_by=gb))
                d = s.between_ranges().duration
                ops += [{"op": op, "a": ca[g[0]], "as": [ca[j] for j in g], "total": int(tot[i]), "rate": num(rt[i]), "parts": int(tp[i]), "prate": num(pr[i]), "avg": num(av[i]),
                         "dur": [int(q) for q in d.values[d.col_arr == g[0]]]} for i, g in enumerate(groups)]
    return {"ops": ops}
