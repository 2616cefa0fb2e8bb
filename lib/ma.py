"""Mapped arrays and records of the real library against Recs.tla."""
from fractions import Fraction
import numpy as np, pandas as pd
import vectorbt as vbt
from numba import njit
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.records.base import Records
from vectorbt.records.mapped_array import MappedArray
from vectorbt.records.col_mapper import ColumnMapper
from vb import num, fl
DT = np.dtype([("id", np.int64), ("col", np.int64), ("idx", np.int64), ("val", np.float64)])
L = lambda x: [str(v) for v in x]


@njit
def cum_m(idxs, col, a):
    return np.cumsum(a)


@njit
def cum_r(recs):
    return np.cumsum(recs["val"])


@njit
def val_r(rec):
    return rec["val"]


@njit
def third_ix(col, a):
    return np.array([0, a.shape[0] - 1])


@njit
def ends(col, a):
    return np.array([a[0], a[-1]])


def n1(x):
    return num(x)


def flat(x):
    return [n1(v) for v in np.atleast_1d(np.asarray(x, dtype=float)).ravel()]


def labs(x):
    x = x.tolist() if isinstance(x, (pd.Series, np.ndarray)) else [x]
    return ["nan" if not isinstance(v, (str, pd.Timestamp)) and v != v else str(v) for v in x]


def tried(f):
    try:
        return f()
    except (ValueError, TypeError) as e:
        if isinstance(e, TypeError):
            raise
        return ["refused"]


def red2(x, names):
    """Rows of a table of reductions by name."""
    if isinstance(x, pd.DataFrame):
        return {q: x.loc[q] for q in x.index} if L(x.columns) == names else None
    return {q: x.loc[q] for q in x.index}


def cell(d):
    return d and {q: np.atleast_1d(np.asarray(x, dtype=float)) for q, x in d.items()}


def sq(d, q, k):
    """The mean or the square of the deviation as a fraction."""
    x = d["mean"][k] if q == "mean" else d["std"][k] ** 2
    return "nan" if x != x else str(Fraction(float(x)).limit_denominator(100000))


class Held:
    def __init__(self, w, e, derived=False):
        wr = ArrayWrapper(pd.Index(w["rows"]), pd.Index(w["cols"]), 2, group_by=pd.Index(w["grp"]) if len(w["grp"]) else None)
        a = np.zeros(len(e), DT)
        for i, x in enumerate(e):
            a[i] = (x["id"], x["c"], x["i"], fl(x["v"]))
        self.r = Records(wr, a, **({"col_mapper": ColumnMapper(wr, a["col"])} if derived else {}))
        self.m = self.r.map_field("val") if derived else MappedArray(wr, a["val"], a["col"], id_arr=a["id"], idx_arr=a["idx"])
        self.k = 0
        self.good = True

    def vals(self, m):
        """Give the records the values of a mapped array."""
        a = self.r.values.copy()
        a["val"] = m.values
        return self.r.replace(records_arr=a)

    def do(self, o):
        self.k += 1
        op, m, r = o["op"], self.m, self.r
        if op in ("cols", "groups"):
            p = o["p"][0] if o["scalar"] else list(o["p"])
            names = m.wrapper.columns if op == "cols" else m.wrapper.get_columns()
            lab = names[p] if o["scalar"] else list(names[p])
            f = (lambda x: x.loc[lab]) if self.k % 2 and names.is_unique else (lambda x: x.iloc[p])
            if op == "cols":
                self.m, self.r = (x.indexing_func(f, group_select=False) for x in (m, r))
            else:
                self.m, self.r = f(m), f(r)
        elif op == "mask":
            k = np.array(o["m"], dtype=bool)
            self.m, self.r = m.apply_mask(k), r.apply_mask(k)
        elif op in ("top", "bottom"):
            k = getattr(m, op + "_n_mask")(o["n"])
            q = getattr(m, op + "_n")(o["n"])
            self.m, self.r = q, r.apply_mask(k)
        elif op == "sort":
            self.m, self.r = m.sort(incl_id=o["ids"]), r.sort(incl_id=o["ids"])
        elif op == "regroup":
            g = list(o["p"]) or False
            self.m, self.r = m.regroup(g), r.regroup(g)
        elif op == "cumsum":
            self.m = m.apply(cum_m, apply_per_group=o["by"])
            q = r.apply(cum_r, apply_per_group=o["by"])
            self.good &= np.array_equal(self.m.values, q.values, equal_nan=True) and (q.col_arr == self.m.col_arr).all()
            self.r = self.vals(self.m)
        elif op == "add":
            self.m = m + fl(o["x"])
            self.r = self.vals(self.m)
        elif op == "double":
            self.m = m + m
            self.r = self.vals(self.m)

    def alike(self):
        """The records' own mapped array says the same."""
        m, r = self.m, self.r
        f = [r.map_field("val"), r.map(val_r), r.map_array(r.values["val"])][self.k % 3]
        ok = self.good and len(f) == len(m) == len(r) and np.array_equal(f.values, m.values, equal_nan=True)
        for a in ("col_arr", "id_arr", "idx_arr"):
            ok = ok and bool((getattr(f, a) == getattr(m, a)).all()) and bool((getattr(r, a) == getattr(m, a)).all())
        ok = ok and r.is_sorted() == m.is_sorted() and r.is_sorted(incl_id=True) == m.is_sorted(incl_id=True)
        for g in (None, False):
            ok = ok and flat(r.count(group_by=g)) == flat(m.count(group_by=g)) == flat(f.count(group_by=g)) and flat(f.sum(group_by=g)) == flat(m.sum(group_by=g))
            for x in (f, m):     # the column map agrees with the entries
                idxs, lens = x.col_mapper.get_col_map(group_by=g)
                cols = x.col_mapper.get_col_arr(group_by=g)
                want = [np.flatnonzero(cols == u) for u in range(len(lens))]
                ok = ok and list(idxs) == [i for w in want for i in w] and list(lens) == [len(w) for w in want]
                if m.is_sorted():
                    rg = x.col_mapper.get_col_range(group_by=g)
                    ok = ok and all((list(rg[u]) == ([want[u][0], want[u][-1] + 1] if len(want[u]) else [-1, -1])) for u in range(len(lens)))
        d = r.records_readable
        ok = ok and L(d["Column"]) == L(m.wrapper.columns[m.col_arr]) and L(d["Timestamp"]) == L(m.wrapper.index[m.idx_arr]) and flat(d["val"]) == flat(m.values)
        return bool(ok)

    def by(self, g):
        m = self.m
        names = L(m.wrapper.get_columns(group_by=g))
        n = len(names)

        def red(x):
            if isinstance(x, pd.Series) and L(x.index) != names:
                return ["labels"]
            return x

        def table(**kw):
            t = m.to_pd(group_by=g, **kw)
            if isinstance(t, pd.DataFrame) and L(t.columns) != names:
                return ["labels"]
            if not kw and L(t.index) != L(m.wrapper.index):
                return ["labels"]
            return flat(t)
        lab = lambda f: tried(lambda: labs(red(f())))
        v = {"names": names, "count": [int(x) for x in np.atleast_1d(np.asarray(red(m.count(group_by=g))))],
             "sum": flat(red(m.sum(group_by=g))), "min": flat(red(m.min(group_by=g))), "max": flat(red(m.max(group_by=g))), "mean": [x if x == "nan" else str(Fraction(x).limit_denominator(1000)) for x in flat(red(m.mean(group_by=g)))],
             "idxmin": lab(lambda: m.idxmin(group_by=g)), "idxmax": lab(lambda: m.idxmax(group_by=g)),
             "first": tried(lambda: flat(red(m.nth(0, group_by=g)))), "last": tried(lambda: flat(red(m.nth(-1, group_by=g)))),
             "lasti": lab(lambda: m.nth_index(-1, group_by=g)), "second": lab(lambda: m.nth_index(1, group_by=g)),
             "desc": [], "desc0": [], "std": [], "median": [], "fits": bool(m.is_expandable(group_by=g)), "table": tried(table), "stack": table(ignore_index=True)}
        if len(m):
            d = red2(m.describe(group_by=g), names)
            six = ("count", "mean", "var", "min", "50%", "max")
            tab = lambda d: [[n1(d[q][k]) if q not in ("mean", "var") else sq(d, q, k) for q in six] for k in range(n)] if d else ["labels"]
            v["desc"] = tab(cell(d))
            v["desc0"] = tab(cell(red2(m.describe(percentiles=[.5], ddof=0, group_by=g), names)))
            v["std"] = [[sq({"std": np.atleast_1d(np.asarray(red(m.std(ddof=f, group_by=g)), dtype=float))}, "var", k) for k in range(n)] for f in (0, 1)]
            v["median"] = flat(red(m.median(group_by=g)))
        if len(m):       # both ends at once
            e = m.reduce(ends, returns_array=True, group_by=g)
            if v["first"] != ["refused"] and flat(e) != v["first"] + v["last"]:
                v["last"] = ["array", flat(e)]
            e = m.reduce(third_ix, returns_array=True, returns_idx=True, group_by=g)
            e = np.asarray(e).reshape(2, -1)
            if labs(e[1]) != v["lasti"]:
                v["lasti"] = ["array"]
        return v

    def obs(self):
        m = self.m
        w = m.wrapper
        cs, rs = w.columns[m.col_arr], w.index[m.idx_arr]
        if self.k % 2 and len(m):      # positions as values, mapped to labels
            cs = m.replace(mapped_arr=m.col_arr, **({"mapping": "columns"} if self.k % 3 else {})).apply_mapping(None if self.k % 3 else "columns").values
            at = m.replace(mapped_arr=m.idx_arr)
            rs = at.to_index() if self.k % 3 else at.apply_mapping("index").values
        return {"entries": [[str(c), str(i), n1(x), str(d)] for c, i, x, d in zip(cs, rs, m.values, m.id_arr)],
                "ndim": w.ndim, "own": self.by(None), "cols": self.by(False), "sorted": bool(m.is_sorted()), "idsorted": bool(m.is_sorted(incl_id=True)), "agree": self.alike()}

    def freq(self, g, rng):
        """Value counts with options."""
        c = lambda *xs: xs[int(rng.integers(len(xs)))]
        o = {"norm": bool(c(0, 1)) and len(self.m) > 0, "uniq": bool(c(1, 1, 0)), "sort": bool(c(0, 1)), "asc": bool(c(0, 1)), "dropna": bool(c(0, 0, 1)), "all": bool(c(0, 1)), "map": []}
        kw, via = {}, False
        if c(0, 1):
            keys = [float(x) for x in rng.permutation(sorted(set(v for v in self.m.values[~np.isnan(self.m.values)].tolist()) | {float(x) for x in rng.integers(-9, 9, 2)}))]
            if c(0, 1):
                keys.insert(int(rng.integers(len(keys) + 1)), np.nan)
            o["map"] = [[n1(x), "m%d" % i] for i, x in enumerate(keys)]
            kw["mapping"] = {x: "m%d" % i for i, x in enumerate(keys)}
            if c(0, 0, 1):
                kw["mapping"] = pd.Series(kw["mapping"])
        m = self.m
        if kw and c(0, 1):      # the array's own mapping
            m = m.replace(mapping=kw.pop("mapping"))
        t = m.value_counts(group_by=g, normalize=o["norm"], sort_uniques=o["uniq"], sort=o["sort"], ascending=o["asc"], dropna=o["dropna"], incl_all_keys=o["all"], **kw)
        k = t.values.reshape(len(t), t.size // max(len(t), 1))
        x = lambda v: "nan" if v != v else str(Fraction(float(v)).limit_denominator(1000))
        lab = lambda v: ("nan" if v is None or v != v else v) if not isinstance(v, (int, float)) else n1(float(v))
        o["got"] = [[lab(v), [x(y) for y in k[i]]] for i, v in enumerate(t.index)]
        return o


def replay(t):
    h = Held(t["w"], t["e"])
    for o in t["ops"]:
        h.do(o)
    return h.obs()


def history(rng):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    n, m = int(rng.integers(2, 7)), int(rng.integers(1, 6))
    blocks = lambda k: [f"g{x}" for x in rng.permutation(k + 3)[np.sort(rng.integers(0, k + 1, k))]]
    w = {"rows": [f"r{i}" for i in range(n)], "cols": [f"c{i}" for i in range(m)], "grp": blocks(m) if c(0, 1) else [], "ndim": 2, "gnd": 0}
    k = int(c(0, 1, 3, 6, 9, 12))
    spread = rng.permutation(n * m)[:k] if c(0, 1) else rng.integers(0, n * m, k)
    k = len(spread)
    ids = rng.permutation(k)
    miss = c(.15, .15, .6)
    v = ["nan" if rng.random() < miss else str(int(x)) for x in rng.integers(-3, 4, k)]
    e = [{"c": int(p % m), "i": int(p // m), "v": v[j], "id": int(ids[j])} for j, p in enumerate(spread)]
    if c(0, 1):
        e.sort(key=lambda x: x["c"])
    h = Held(w, e, c(False, True))
    look = lambda: {"op": "look", "obs": h.obs(), "freq": {"own": [h.freq(None, rng) for _ in range(2)], "cols": [h.freq(False, rng)]}}
    ops = [look()] if c(0, 1) else []
    for _ in range(int(rng.integers(1, 5))):
        x = h.m.wrapper
        grouped = x.grouper.is_grouped()
        kinds = ["mask", "top", "bottom", "sort", "sort", "cumsum", "add", "double"]
        if x.ndim == 2:
            kinds += ["cols"] * 3
            if not (grouped and x.grouped_ndim == 2 and x.grouper.get_group_count() == 1):
                kinds += ["regroup"] * 2
        if grouped and x.grouped_ndim == 2:
            kinds += ["groups"] * 3
        op = c(*kinds)
        o = {"op": op}
        if op in ("cols", "groups"):
            names = x.get_columns() if op == "groups" else x.columns
            o["scalar"] = bool(c(0, 0, 0, 1))
            o["p"] = [int(rng.integers(len(names)))] if o["scalar"] else [int(y) for y in rng.permutation(len(names))[:int(rng.integers(1, len(names) + 1))]]
            if op == "cols" and not o["scalar"] and not grouped and c(0, 0, 1):
                o["p"] = [int(y) for y in rng.integers(0, len(names), 3)]
            if op == "cols" and grouped:
                o["p"] = sorted(o["p"])
        elif op == "mask":
            o["m"] = [bool(y) for y in rng.random(len(h.m)) < .7]
        elif op in ("top", "bottom"):
            o["n"] = int(rng.integers(1, 6))
        elif op == "sort":
            o["ids"] = bool(c(0, 1))
        elif op == "regroup":
            o["p"] = blocks(len(x.columns)) if c(0, 1, 1) else []
        elif op == "cumsum":
            o["by"] = bool(c(0, 1))
        elif op == "add":
            o["x"] = str(int(rng.integers(-2, 3)))
        h.do(o)
        ops.append(o)
        if c(0, 0, 1):      # carry on with the records' own mapped array
            h.m = h.r.map_field("val")
        if c(0, 0, 1):
            ops.append(look())
    ops.append(look())
    return {"w": w, "e": e, "ops": ops}
