"""Array wrappers of the real library against Grouping.tla."""
import numpy as np, pandas as pd
import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
L = lambda x: [str(v) for v in x]


class Box(Wrapping):
    def indexing_func(self, f, **kw):
        return self.replace(wrapper=self.wrapper.indexing_func(f, **kw))


class Held:
    """A wrapper with the data it describes: ids of cells, of rows and groups."""
    def __init__(self, w):
        self.w = w
        self.cells = np.array([[(str(r), str(c)) for c in w.columns] for r in w.index], dtype=object).reshape(len(w.index), len(w.columns), 2)
        self.groups = None

    def pick(self, f, **kw):
        w, ri, gi, ci = self.w.indexing_func_meta(f, **kw)
        self.cells = self.cells[np.atleast_1d(ri)][:, np.atleast_1d(ci)]
        self.positions = (np.atleast_1d(ri), np.atleast_1d(gi))
        self.w = w
        return self

    def regroup(self, g):
        self.w = self.w.regroup(g)


def frame(x):
    if isinstance(x, pd.Series):
        return [L(x.index), [str(x.name)], 1]
    return [L(x.index), L(x.columns), 2]


def view(h):
    w = h.w
    g = w.grouper
    grouped = g.is_grouped()
    ok = bool(g.is_sorted())
    rows, cols = L(w.index), L(w.columns)
    good = h.cells.shape[:2] == (len(rows), len(cols)) and all(tuple(h.cells[i, j]) == (r, c) for i, r in enumerate(rows) for j, c in enumerate(cols))
    n, m = len(rows), len(cols)
    arr = np.arange(n * m).reshape(n, m)
    out = w.wrap(arr if w.ndim == 2 else arr[:, 0], group_by=False)
    good &= bool((np.asarray(out).reshape(n, m) == arr).all())
    red = w.wrap_reduced(np.arange(m), group_by=False)
    good &= bool((np.atleast_1d(np.asarray(red)) == np.arange(m)).all())
    v = {"rows": rows, "cols": cols, "ndim": w.ndim, "shape": list(w.shape), "grp": L(g.group_by) if grouped else [], "sorted": ok,
         "codes": [int(x) for x in g.get_groups()], "names": L(g.get_columns()), "lens": [], "starts": [], "ends": [], "gndim": 0, "gshape": [],
         "wrap": frame(out), "gwrap": [], "red": L(red.index) if isinstance(red, pd.Series) else [], "gred": []}
    good &= list(w.shape_2d) == [n, m]
    if ok:
        good &= v["names"] == L(w.get_columns())
        k = g.get_group_count()
        v.update(lens=[int(x) for x in g.get_group_lens()], starts=[int(x) for x in g.get_group_start_idxs()], ends=[int(x) for x in g.get_group_end_idxs()], gndim=w.grouped_ndim, gshape=list(w.get_shape()))
        arr = np.arange(n * k).reshape(n, k)
        out = w.wrap(arr)
        good &= bool((np.asarray(out).reshape(n, k) == arr).all()) and w.get_ndim() == w.grouped_ndim and list(w.get_shape_2d()) == [n, k]
        red = w.wrap_reduced(np.arange(k))
        good &= bool((np.atleast_1d(np.asarray(red)) == np.arange(k)).all())
        v.update(gwrap=frame(out), gred=L(red.index) if isinstance(red, pd.Series) else [])
        two = w.wrap_reduced(np.arange(2 * k).reshape(2, k) if w.grouped_ndim == 2 else np.arange(2), name_or_index=["p", "q"])
        good &= frame(two) == [["p", "q"], v["gwrap"][1], w.grouped_ndim] and bool((np.asarray(two).reshape(2, -1) == np.arange(2 * k).reshape(2, k)).all())
        r = w.resolve()
        good &= not r.grouper.is_grouped() and L(r.columns) == v["names"] and r.ndim == w.grouped_ndim
    else:
        for f in (g.get_group_lens, g.get_group_start_idxs, g.get_group_end_idxs, g.get_group_count):
            try:
                f()
                good = False
            except ValueError:
                pass
    v["data"] = bool(good)
    return v


def base(rows, cols, grp=None):
    w = ArrayWrapper(pd.Index(rows), pd.Index(cols), 2, group_by=None if not grp else pd.Index(grp))
    return Held(w)


def do(h, op, p, scalar):
    if op == "regroup":
        h.regroup(list(p) if len(p) else False)
    elif op == "rows":
        h.pick(lambda x: x.iloc[list(p)])
    else:
        c = p[0] if scalar else list(p)
        h.pick(lambda x: x.iloc[:, c], group_select=op == "groups")


def replay(t, nc):
    h = base(["r0", "r1"], list("abcd")[:nc], t["g0"])
    for o in t["ops"]:
        do(h, o["op"], o["p"], o["scalar"])
    return view(h)


def history(rng):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    n, m = int(rng.integers(3, 8)), int(rng.integers(1, 9))
    rows = pd.date_range("2024", periods=n) if c(0, 1) else pd.Index([f"r{i}" for i in range(n)])
    cols = pd.Index([f"c{i}" for i in range(m)])
    blocks = lambda k: [f"g{x}" for x in rng.permutation(k + 3)[np.sort(rng.integers(0, k + 1, k))]] if k else []
    g = blocks(m) if c(0, 1, 1) else []
    h = Held(ArrayWrapper(rows, cols, 2, group_by=None if not g else c(g, pd.Index(g), np.array(g))))
    box = Box(h.w)
    start = {"rows": L(rows), "cols": L(cols), "grp": list(g), "ndim": 2, "gnd": 0}
    ops = []
    for _ in range(int(rng.integers(1, 6))):
        w = h.w
        grouped = w.grouper.is_grouped()
        if grouped and not w.grouper.is_sorted():
            try:
                w.iloc[[0, 1]]
                break
            except ValueError:
                ops.append({"op": "refused"})
                break
        kinds = ["rows", "rows"]
        if w.ndim == 2:
            kinds += ["cols", "cols", "both"]
            if not (grouped and w.grouped_ndim == 2 and w.grouper.get_group_count() == 1):
                kinds += ["regroup", "regroup"]
        if grouped and w.grouped_ndim == 2:
            kinds += ["groups"] * 3 + ["groupsrows"] * 2
        op = c(*kinds)
        if op == "regroup":
            k = len(w.columns)
            g = blocks(k) if c(0, 0, 1) else ["t"] * k if c(0, 1) else [] if c(0, 1) else [f"g{x}" for x in rng.integers(0, 3, k)]
            arg = False if not g else True if g == ["t"] * k and c(0, 1) else c(list(g), pd.Index(g), np.array(g))
            if arg is True:
                g = ["group"] * k
            h.regroup(arg)
            box = box.regroup(arg)
            ops.append({"op": op, "p": g, "view": view(h)})
        else:
            r = list(range(len(w.index)))
            if op in ("rows", "both", "groupsrows"):
                r = how_rows(rng, c, w)
            what = op.replace("rows", "") or "rows"
            names = w.get_columns() if what == "groups" else w.columns
            scalar, p = False, list(range(len(names)))
            if op != "rows":
                scalar = bool(c(0, 0, 1))
                p = [int(rng.integers(len(names)))] if scalar else [int(x) for x in rng.permutation(len(names))[:int(rng.integers(1, len(names) + 1))]]
                if what == "cols" and not scalar and c(0, 0, 0, 1):
                    p = [int(x) for x in rng.integers(0, len(names), 4)]
            unique = names.is_unique
            style = c("pos", "label", "mask", "slice", "only")
            gs = {} if what in ("groups", "rows") else {"group_select": False}
            full = r == list(range(len(w.index)))
            one = p[0] if scalar else p
            if op == "rows":
                if style == "label" and w.index.is_unique:
                    f = lambda x: x.loc[w.index[r]]
                else:
                    f = lambda x: x.iloc[r]
            elif style == "label" and unique and w.index.is_unique:
                lab = names[p[0]] if scalar else list(names[p])
                f = (lambda x: x[lab]) if full else (lambda x: x.loc[w.index[r], lab])
            elif style == "mask" and not scalar and p == sorted(set(p)):
                mk = np.isin(np.arange(len(names)), p)
                f = lambda x: x.iloc[r, mk] if not full else x.loc[:, mk]
            elif style == "slice" and full and not scalar:
                a, b, st = int(rng.integers(0, len(names))), int(rng.integers(1, len(names) + 1)), c(1, 1, 2, -1)
                q = list(range(len(names)))[a:b:st] if st > 0 else list(range(len(names)))[::-1]
                if q:
                    p = q
                    s = slice(a, b, st) if st > 0 else slice(None, None, -1)
                    f = lambda x: x.iloc[:, s]
                else:
                    f = lambda x: x.iloc[:, one]
            elif style == "only" and full and not (w.get_ndim() if what == "groups" else w.ndim) == 1:
                gs["column_only_select"] = True
                f = lambda x: x.iloc[one]
            else:
                f = lambda x: x.iloc[r, one] if not full else x.iloc[:, one]
            h.pick(f, **gs)
            box = f(box) if not gs else box.indexing_func(f, **gs)
            ops.append({"op": op, "p": r if op == "rows" else p, "r": r, "scalar": scalar, "view": view(h)})
        b = Held(box.wrapper)
        if {**view(b), "data": 0} != {**ops[-1]["view"], "data": 0}:
            ops[-1]["view"]["data"] = False
    return {"base": start, "ops": ops}


def groupers(rng):
    """Groups from levels, and what a grouper refuses."""
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    from vectorbt.base.column_grouper import ColumnGrouper
    ops = []
    for _ in range(4):
        m = int(rng.integers(1, 8))
        a, b, d = ([f"{x}{v}" for v in rng.integers(0, 3, m)] for x in "abd")
        cols = pd.MultiIndex.from_arrays([a, b, d], names=["A", "B", "D"])
        which = c([0], [1], [2], [0, 1], [2, 0])
        by = [c(i, "ABD"[i]) for i in which]
        if len(by) == 1:
            by = by[0]
        elif m == 2:
            by = ["ABD"[i] for i in which]
            continue
        g = ColumnGrouper(cols, group_by=by)
        lab = lambda t: "-".join(t) if isinstance(t, tuple) else t
        ops.append({"op": "level", "p": ["-".join([a, b, d][i][j] for i in which) for j in range(m)], "codes": [int(x) for x in g.get_groups()], "names": [lab(t) for t in g.get_columns()]})
    for _ in range(4):
        m = int(rng.integers(1, 6))
        mk = lambda: c([], [f"g{x}" for x in rng.integers(0, 3, m)], [f"h{x}" for x in np.sort(rng.integers(0, 3, m))])
        h, p = mk(), mk()
        if c(0, 0, 1) and h:
            p = ["n" + x for x in h]
        allow = {k: bool(c(0, 1)) for k in ("enable", "disable", "modify")}
        g = ColumnGrouper(pd.Index(range(m)), group_by=pd.Index(h) if h else None, **{"allow_" + k: v for k, v in allow.items()})
        to = False if not p else pd.Index(p)
        try:
            g.check_group_by(group_by=to)
            refused = False
        except ValueError:
            refused = True
        try:
            g.resolve_group_by(group_by=to)
            refused2 = False
        except ValueError:
            refused2 = True
        ops.append({"op": "permit", "h": h, "p": p, "allow": allow, "refused": refused if refused == refused2 else "differs", "enabled": bool(g.is_grouping_enabled(group_by=to)), "disabled": bool(g.is_grouping_disabled(group_by=to)),
                    "modified": bool(g.is_grouping_modified(group_by=to)), "recount": bool(g.is_group_count_changed(group_by=to))})
    return {"base": {"rows": [], "cols": [], "grp": [], "ndim": 2, "gnd": 0}, "ops": ops}


def how_rows(rng, c, w):
    n = len(w.index)
    k = int(rng.integers(2, n + 1)) if n > 2 else n
    p = [int(x) for x in rng.permutation(n)[:k]]
    return sorted(p) if c(0, 1) else p
