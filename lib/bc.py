"""The real broadcasting against Bc.tla."""
import numpy as np, pandas as pd
from vectorbt.base import reshape_fns as rf, index_fns as xf


def lab(x):
    return int(x) if x.isdigit() else x


PARTS = [0]


def index(ix):
    lv = [pd.Index([lab(x) for x in l["v"]], name=l["n"] or None) for l in ix]
    if len(lv) > 1:
        PARTS[0] += 1
        if PARTS[0] % 2:            # a part of a longer one, whose levels still hold what is gone
            return pd.MultiIndex.from_arrays([l.append(pd.Index([99 if l.dtype.kind == "i" else "zz"], name=l.name)) for l in lv])[:-1]
        return pd.MultiIndex.from_arrays(lv)
    if list(lv[0]) == list(range(len(lv[0]))) and lv[0].name is None:
        return pd.RangeIndex(len(lv[0]))
    return lv[0]


def unindex(i):
    if isinstance(i, pd.MultiIndex):
        return [{"n": i.names[k] or "", "v": [str(x) for x in i.get_level_values(k)]} for k in range(i.nlevels)]
    return [{"n": i.name or "", "v": [str(x) for x in i]}]


def make(a):
    v = np.array([float(x) for x in a["v"]])
    k = a["k"]
    if k == "s":
        return float(v[0])
    if k == "1":
        return v
    m = v.reshape(a["r"], a["c"])
    if k == "2":
        return m
    if k == "sr":
        nm = lab(a["cx"][0]["v"][0])
        return pd.Series(v, index=index(a["ix"]), name=None if nm == 0 else nm)
    return pd.DataFrame(m, index=index(a["ix"]), columns=index(a["cx"]))


def s(x):
    return "nan" if x != x else str(int(x))


def see(x):
    if isinstance(x, pd.Series):
        n = x.name
        cx = [{"n": "", "v": [str(y)]} for y in (n if isinstance(n, tuple) else [0 if n is None else n])]
        return {"k": "sr", "r": len(x), "c": 1, "v": [s(y) for y in x.values], "ix": unindex(x.index), "cx": cx}
    if isinstance(x, pd.DataFrame):
        return {"k": "fr", "r": x.shape[0], "c": x.shape[1], "v": [s(y) for y in x.values.ravel()], "ix": unindex(x.index), "cx": unindex(x.columns)}
    x = np.asarray(x)
    r, c = (list(x.shape) + [1, 1])[:2]
    return {"k": "np", "r": r, "c": c, "v": [s(y) for y in x.ravel()], "ix": [], "cx": []}


def mode(m):
    return m["at"] - 1 if m["m"] == "at" else index(m["ix"]) if m["m"] == "given" else m["m"]


def bcast(args, o, **more):
    kw = dict(index_from=mode(o["im"]), columns_from=mode(o["cm"]), drop_duplicates=o["dup"], keep=o["keep"], drop_redundant=o["red"], ignore_sr_names=o["ign"],
              align_index=o["ai"], align_columns=o["ac"])
    if o["to"]:
        kw["to_shape"] = tuple(o["to"])
    if o["pd"]:
        kw["to_pd"] = o["pd"] == "y"
    if o["fr"]:
        kw["to_frame"] = True
    objs = [make(a) for a in args]
    try:
        r = rf.broadcast(*objs, **kw, **more)
    except (ValueError, TypeError) as e:
        return None
    return r if len(objs) > 1 else (r,)


def flexed(x, r, c, two):
    """All cells of an unbroadcast array as flexible indexing finds them."""
    x = np.asarray(x)
    return [s(rf.flex_select_auto_nb(x, i, j, two)) for i in range(r) for j in range(c)]


def replay(t):
    """The result of a behaviour, in its own format; keep_raw and flexible indexing included."""
    r = bcast(t["args"], t["o"])
    if r is None:
        return {"ok": False}, True
    out = [see(x) for x in r]
    two = np.asarray(r[0]).ndim == 2
    lazy = True
    if not t["o"]["ac"] or not any(a["k"] == "fr" for a in t["args"]):
        raw = bcast(t["args"], t["o"], keep_raw=True)
        lazy = raw is not None and all(flexed(x, y["r"], y["c"], two) == y["v"] for x, y in zip(raw, out))
        mixed = bcast(t["args"], t["o"], keep_raw=[i == 0 for i in range(len(r))], require_kwargs=dict(requirements="W"))
        lazy &= mixed is not None and [see(x) for x in mixed[1:]] == out[1:]
    return {"ok": True, "two": two, "res": out}, lazy


# ------------------------------------------------------------------ random calls
NAMES = ["", "", "t", "q"]


def rlevel(rng, n, uniq=False):
    k = rng.integers(5)
    if k == 0:
        v = [str(i) for i in range(n)]
    elif k == 1 and not uniq:
        v = [str(rng.choice(list("ab")))] * n
    elif k == 2 and not uniq:
        v = [str(x) for x in rng.choice(list("abc"), n)]
    elif k == 3:
        v = [str(x) for x in rng.permutation(n + 2)[:n] + 1]
    else:
        v = [str(x) for x in rng.permutation(list("abcdefghijklm"))[:n]]
    return {"n": str(rng.choice(NAMES)), "v": v}


def rindex(rng, n, uniq=False):
    k = rng.integers(6)
    if k < 2:
        return [{"n": "", "v": [str(i) for i in range(n)]}]
    if k < 5:
        return [rlevel(rng, n, uniq)]
    return [rlevel(rng, n) for _ in range(2)]


def rindexes(rng, n):
    """An index drawn from a small pool, so that equal ones and clashes occur."""
    pool = [[{"n": "", "v": list("xyzuv")[:n]}], [{"n": "t", "v": list("xyzuv")[:n]}], [{"n": "", "v": ["x"] * n}], [{"n": "t", "v": list("xyzuv")[:n]}, {"n": "q", "v": (["1", "2"] * n)[:n]}]]
    return pool[rng.integers(len(pool))] if rng.random() < .6 else rindex(rng, n)


def rinput(rng, i, R, C):
    k = str(rng.choice(["s", "1", "2", "sr", "fr", "sr", "fr"]))
    r = R if rng.random() < .7 else 1
    c = C if rng.random() < .7 else 1
    if rng.random() < .04:
        r += 1
    if k == "s":
        r = c = 1
    if k == "1":
        r, c = (C if rng.random() < .6 else r), 1
    if k == "sr":
        c = 1
    v = [str(1000 * i + x) for x in rng.permutation(r * c)]
    ix = rindexes(rng, r) if k in ("sr", "fr") else []
    cx = rindexes(rng, c) if k == "fr" else [{"n": "", "v": [str(rng.choice(["0", "a", "b"]))]}] if k == "sr" else []
    return {"k": k, "r": r, "c": c, "v": v, "ix": ix, "cx": cx}


def ropts(rng, args):
    def md(axis):
        k = str(rng.choice(["stack", "stack", "strict", "keep", "reset", "at", "given"]))
        n = max(a["c" if axis else "r"] for a in args)
        return {"m": k, "at": int(rng.integers(len(args))) + 1, "ix": rindex(rng, 1 if rng.random() < .3 else n) if k == "given" else []}
    return {"im": md(0), "cm": md(1), "dup": bool(rng.random() < .8), "keep": str(rng.choice(["first", "last"])), "red": bool(rng.random() < .8),
            "ign": bool(rng.random() < .7), "to": [], "pd": "", "ai": bool(rng.random() < .3), "ac": bool(rng.random() < .7), "fr": False}


def op_bcast(rng):
    R, C = (int(x) for x in rng.integers(1, 5, 2))
    args = [rinput(rng, i, R, C) for i in range(rng.integers(1, 5))]
    line_up = rng.random() < .3
    if line_up:                # alignment: a frame over fewer columns, named levels
        n, m = (int(x) for x in rng.integers(2, 4, 2))
        big = [{"n": "p", "v": [x for x in "abc"[:n] for _ in range(m)]}, {"n": "q", "v": [str(y) for _ in range(n) for y in range(m)]}]
        nm, vals = (("p", list("abc"[:n])), ("q", [str(y) for y in range(m)]))[rng.integers(2)]
        if rng.random() < .2:
            nm = "w"
        if rng.random() < .2:
            vals = vals[:-1] + ["9"]
        small = [{"n": nm, "v": [str(x) for x in rng.permutation(vals)]}]
        if rng.random() < .3:
            pos = sorted(rng.permutation(n * m)[:rng.integers(2, n * m + 1)])
            small = [{"n": l["n"], "v": [l["v"][p] for p in pos]} for l in big]
        r = int(rng.integers(1, 3))
        base = [{"n": "", "v": [str(i) for i in range(r)]}]
        mk = lambda i, cx: {"k": "fr", "r": r, "c": len(cx[0]["v"]), "v": [str(1000 * i + x) for x in range(r * len(cx[0]["v"]))], "ix": base, "cx": cx}
        args = [mk(0, small), mk(1, big)] if rng.random() < .5 else [mk(1, big), mk(0, small)]
    o = ropts(rng, args)
    o["ac"] |= line_up
    if any(a["k"] in ("sr", "fr") for a in args):
        o["pd"] = str(rng.choice(["", "", "y", "n"]))
    if rng.random() < .2:
        o["to"] = [R, C] if rng.random() < .6 else [R]
        if any(a["k"] in ("2", "fr") for a in args):
            o["to"] = [R, C]
    elif any(a["k"] in ("2", "fr", "sr") for a in args) and rng.random() < .2:
        o["fr"] = True
    r = bcast(args, o)
    return {"op": "bcast", "args": args, "o": o, "got": [] if r is None else [see(x) for x in r]}


BASE = {"dup": True, "keep": "last", "red": True, "ign": True, "to": [], "pd": "", "ai": False, "ac": True, "fr": False}


def op_to(rng):
    R, C = (int(x) for x in rng.integers(1, 5, 2))
    a, b = rinput(rng, 0, R, C), rinput(rng, 1, R, C)
    if b["k"] == "s" or (b["k"] in ("1", "sr") and a["k"] in ("2", "fr")):
        b["k"], b["r"], b["c"] = "2", max(a["r"], R), max(a["c"], C)
        b["v"], b["ix"], b["cx"] = ["0"] * (b["r"] * b["c"]), [], []
    pd_ = b["k"] in ("sr", "fr")
    g = lambda ix: {"m": "given", "at": 1, "ix": ix} if pd_ else {"m": "stack", "at": 1, "ix": []}
    o = dict(BASE, im=g(b["ix"]), cm=g(b["cx"]), to=[b["r"], b["c"]] if b["k"] in ("2", "fr") else [b["r"]], pd="y" if pd_ else "n")
    try:
        r = [see(rf.broadcast_to(make(a), make(b)))]
    except (ValueError, TypeError):
        r = []
    return {"op": "to", "args": [a], "o": o, "got": r}


def op_stack(rng):
    n = int(rng.integers(1, 5))
    ixs = [rindexes(rng, n) for _ in range(rng.integers(1, 4))]
    if sum(map(len, ixs)) < 2:
        ixs *= 2
    o = dict(BASE, dup=bool(rng.random() < .7), keep=str(rng.choice(["first", "last"])), red=bool(rng.random() < .7))
    return {"op": "stack", "ixs": ixs, "o": o, "got": unindex(xf.stack_indexes([index(x) for x in ixs], drop_duplicates=o["dup"], keep=o["keep"], drop_redundant=o["red"]))}


def op_combine(rng):
    ixs = [rindex(rng, int(rng.integers(1, 4))) for _ in range(rng.integers(1, 4))]
    o = dict(BASE, dup=bool(rng.random() < .7), keep=str(rng.choice(["first", "last"])), red=bool(rng.random() < .7))
    return {"op": "combine", "ixs": ixs, "o": o, "got": unindex(xf.combine_indexes([index(x) for x in ixs], drop_duplicates=o["dup"], keep=o["keep"], drop_redundant=o["red"]))}


def op_align(rng):
    n, m = (int(x) for x in rng.integers(1, 4, 2))
    nms = ["p", "q"] if rng.random() < .8 else ["p", "p"] if rng.random() < .3 else ["", ""]
    big = [{"n": nms[0], "v": [x for x in "abc"[:n] for _ in range(m)]}, {"n": nms[1], "v": [str(y) for _ in range(n) for y in range(m)]}]
    cur = [big]
    for _ in range(rng.integers(1, 3)):
        k = rng.integers(4)
        l = big[rng.integers(2)]
        u = list(dict.fromkeys(l["v"]))
        if k == 0:
            cur.append([{"n": l["n"], "v": [str(x) for x in rng.permutation(u)]}])
        elif k == 1:
            pos = rng.permutation(n * m)[:rng.integers(1, n * m + 1)]
            cur.append([{"n": x["n"], "v": [x["v"][p] for p in pos]} for x in big])
        elif k == 2:
            cur.append([{"n": l["n"], "v": u + ["8"]}])
        else:
            pos = rng.permutation(n * m)
            cur.append([{"n": x["n"], "v": [x["v"][p] for p in pos]} for x in big])
    cur = [cur[i] for i in rng.permutation(len(cur))]
    try:
        ii = [index(x) for x in cur]
        got = [[int(y) + 1 for y in np.arange(len(i))[p]] for i, p in zip(ii, xf.align_indexes(ii))]
    except ValueError:
        got = []
    return {"op": "align", "ixs": cur, "got": got}


def op_lay(rng):
    while True:
        a = rinput(rng, 0, int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        if a["k"] in ("sr", "fr"):
            break
    op, n, axis = str(rng.choice(["repeat", "tile"])), int(rng.integers(1, 4)), int(rng.integers(2))
    got = see(getattr(rf, op)(make(a), n, axis=axis))
    raw = getattr(rf, op)(np.asarray(make(a)), n, axis=axis)
    if list(map(s, raw.ravel())) != got["v"]:
        got = {"k": "raw array differs", "v": list(map(s, raw.ravel()))}
    return {"op": op, "a": a, "n": n, "axis": axis, "got": got}


def op_unstack(rng):
    n, m = (int(x) for x in rng.integers(1, 5, 2))
    A = [str(x) for x in rng.permutation(9)[:n] + 1] if rng.random() < .5 else [str(x) for x in rng.permutation(list("abcdef"))[:n]]
    B = [str(x) for x in rng.permutation(list("uvwxyz"))[:m]]
    pairs = [(a, b) for a in A for b in B]
    pairs = [pairs[i] for i in rng.permutation(len(pairs))[:rng.integers(1, len(pairs) + 1)]]
    ix = [{"n": "p", "v": [p[0] for p in pairs]}, {"n": str(rng.choice(["q", ""])), "v": [p[1] for p in pairs]}]
    if rng.random() < .3:
        ix.append({"n": "w", "v": [str(x) for x in rng.choice(list("kl"), len(pairs))]})
    v = [str(i) for i in range(len(pairs))]
    sr = pd.Series([float(x) for x in v], index=index(ix))
    if len(ix) == 3:
        il, cl = (([1, 3], [2]), ([1], [2, 3]), ([3, 2], [1]))[rng.integers(3)]
        kw = dict(index_levels=[x - 1 for x in il] if len(il) > 1 else il[0] - 1, column_levels=[x - 1 for x in cl] if len(cl) > 1 else cl[0] - 1)
    else:
        il, cl = ([1], [2]) if rng.random() < .6 else ([2], [1])
        kw = {} if il == [1] and rng.random() < .5 else dict(index_levels=il[0] - 1, column_levels=cl[0] - 1)
    if rng.random() < .5:
        df = rf.unstack_to_df(sr, **kw)
    else:
        df = sr.vbt.unstack_to_df(**kw)
    T = lambda x: [str(y) for y in x] if isinstance(x, tuple) else [str(x)]
    return {"op": "unstack", "ix": ix, "v": v, "il": il, "cl": cl, "got": [[T(r), T(c), s(df.iloc[i, j])] for i, r in enumerate(df.index) for j, c in enumerate(df.columns)]}


def op_symmetric(rng):
    P = list("abcde")
    rl = [str(x) for x in rng.permutation(P)[:rng.integers(1, 5)]]
    cl = [str(x) for x in rng.permutation(P)[:rng.integers(1, 5)]]
    v = [str(i) if rng.random() < .7 else "nan" for i in range(len(rl) * len(cl))]
    df = pd.DataFrame(np.array([float(x) for x in v]).reshape(len(rl), len(cl)), index=pd.Index(rl), columns=pd.Index(cl))
    out = rf.make_symmetric(df, sort=bool(rng.random() < .6)) if rng.random() < .5 else df.vbt.make_symmetric()
    if list(out.index) != list(out.columns):
        return {"op": "symmetric", "rl": rl, "cl": cl, "v": v, "got": ["index and columns differ"]}
    return {"op": "symmetric", "rl": rl, "cl": cl, "v": v, "got": [[r, c, s(out.iloc[i, j])] for i, r in enumerate(out.index) for j, c in enumerate(out.columns)]}


def op_flex(rng):
    rows, cols = (int(x) for x in rng.integers(1, 6, 2))
    nd = int(rng.integers(3))
    f2 = bool(rng.random() < .5)
    r = c = 1
    if nd == 1:
        r = (cols if f2 else rows) if rng.random() < .7 else 1
    elif nd == 2:
        r, c = rows if rng.random() < .6 else 1, cols if rng.random() < .6 else 1
    v = [str(x) for x in rng.permutation(r * c)]
    a = np.array([float(x) for x in v]).reshape([(), (r,), (r, c)][nd])
    return {"op": "flex", "v": v, "nd": nd, "r": r, "c": c, "rows": rows, "cols": cols, "flex2d": f2, "got": flexed(a, rows, cols, f2)}


def op_each(rng):
    """Parameters spread over an array of their own each, or over an axis."""
    sh = [(int(rng.integers(1, 4)),), tuple(int(x) for x in rng.integers(1, 4, 2))][rng.integers(2)]
    p = [int(x) for x in rng.integers(0, 9, rng.integers(1, 4))]
    a2 = np.zeros(sh)
    if rng.random() < .5:
        if rng.random() < .3:
            p = p[:1]
            x = rf.broadcast_to_array_of(p[0], a2)
        else:
            x = rf.broadcast_to_array_of(p, a2)
        n = a2.size
        ok = x.shape == (len(p),) + sh
    else:
        axis = int(rng.integers(len(sh)))
        p = p[:1]
        x = rf.broadcast_to_axis_of(p[0], a2, axis)
        n, ok = sh[axis], x.shape == (sh[axis],)
    return {"op": "each", "p": p, "n": n, "got": [int(y) for y in x.ravel()] if ok else ["shape"]}


OPS = [op_bcast] * 6 + [op_to] * 2 + [op_stack, op_combine, op_align, op_align, op_lay, op_unstack, op_unstack, op_symmetric, op_flex, op_each]


def case(rng):
    return {"ops": [OPS[rng.integers(len(OPS))](rng) for _ in range(6)]}
