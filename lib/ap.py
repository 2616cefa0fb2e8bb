"""Apply.tla on real objects."""
import warnings
import numpy as np, pandas as pd
import vectorbt as vbt
from vb import num, fl
warnings.simplefilter("ignore")
DAY0 = pd.Timestamp("2024-01-01")
LEVEL = {"stack", "drop", "select", "rename", "lean", "dedup"}
NUMS = {"min", "max", "mean", "median", "std", "sum", "count", "idxmin", "idxmax", "describe", "counts", "zscore"}


class Terms:
    """Texts as numbers and back."""
    def __init__(self):
        self.no, self.text = {}, []

    def put(self, s):
        if s == "nan":
            return np.nan
        if s not in self.no:
            self.no[s] = len(self.text)
            self.text.append(s)
        return 1000.0 + self.no[s]

    def get(self, x):
        x = float(x)
        if x != x:
            return "nan"
        if -1 <= x < 1000 and x == int(x):
            return str(int(x))
        k = x - 1000.0
        return self.text[int(k)] if k == int(k) and 0 <= k < len(self.text) else "?%r" % x


def T(head, xs, extra):
    return "%s;%d(%s)" % (head, extra, " ".join(xs))


def label(x):
    if x is None or isinstance(x, float) and x != x or x is pd.NaT:
        return "nan"
    if isinstance(x, pd.Timestamp):
        return str((x - DAY0).days)
    if isinstance(x, (float, np.floating)):
        return num(x)
    return str(x)


def levels(ix):
    return [{"n": "" if ix.names[l] is None else str(ix.names[l]), "v": [label(v) for v in ix.get_level_values(l)]} for l in range(ix.nlevels)]


def plain(n):
    return [{"n": "", "v": [str(i) for i in range(n)]}]


PARTS = [0]


def index(ls):
    vs = [[int(x) for x in l["v"]] if all(x.isdigit() for x in l["v"]) else l["v"] for l in ls]
    ns = [l["n"] or None for l in ls]
    if len(ls) == 1:
        n = len(vs[0])
        return pd.RangeIndex(n) if ls == plain(n) else pd.Index(vs[0], name=ns[0])
    PARTS[0] += 1
    if PARTS[0] % 2:                # a part of a longer one, whose levels still hold what is gone
        return pd.MultiIndex.from_arrays([v + [99 if isinstance(v[0], int) else "zz"] for v in vs], names=ns)[:-1]
    return pd.MultiIndex.from_arrays(vs, names=ns)


def build(t, put, days=None):
    m = np.array([[put(x) for x in row] for row in t["m"]], dtype=float).reshape(len(t["m"]), len(t["cx"][0]["v"]))
    ix = index(t["ix"]) if days is None else pd.DatetimeIndex([DAY0 + pd.Timedelta(days=int(d)) for d in days])
    if t["ser"]:
        return pd.Series(m[:, 0], index=ix, name=None if t["cx"] == plain(1) else t["cx"][0]["v"][0])
    return pd.DataFrame(m, index=ix, columns=index(t["cx"]))


def read(x, cell):
    if isinstance(x, pd.DataFrame):
        return {"ser": False, "ix": levels(x.index), "cx": levels(x.columns), "m": [[cell(v) for v in row] for row in x.values.tolist()]}
    if isinstance(x, pd.Series):
        return {"ser": True, "ix": levels(x.index), "cx": plain(1) if x.name is None else [{"n": "", "v": [label(x.name)]}], "m": [[cell(v)] for v in x.tolist()]}
    return {"ser": True, "ix": [{"n": "!refused", "v": []}], "cx": plain(1), "m": [[cell(x)]]}


def like(obj, m):
    if isinstance(obj, pd.Series):
        return pd.Series(m, index=obj.index, name=obj.name)
    return pd.DataFrame(m, index=obj.index, columns=obj.columns)


def act(obj, o, T_, rng):
    """What the operation gives, and how its cells are read."""
    v, op, get, put = obj.vbt, o["op"], T_.get, T_.put
    by = dict(group_by=pd.Index(o["by"], name=o["gn"] or None)) if o["by"] else {}
    keys = index(o["keys"]) if o["keys"] else None
    form = dict(keep_pd=o["form"].startswith("pd"), to_2d=o["form"].endswith("2"))
    txt = lambda a: [get(x) for x in np.asarray(a).ravel()]
    rows = lambda a: [",".join(get(x) for x in r) for r in np.asarray(a)]
    each = lambda head, x, *more: np.array([put(T(head, [get(a)] + [get(np.asarray(b).ravel()[i]) for b in more[:-1]], more[-1])) for i, a in enumerate(np.asarray(x).ravel())]).reshape(x.shape)
    what = lambda n, x: "%s%s%d" % (n, "pd" if hasattr(x, "iloc") else "np", x.ndim)

    def col_nb(j, a, k):
        return np.array([put(T("c%d.%d" % (j, i), txt(a), k)) for i in range(len(a))])

    def red_nb(u, a, *k):
        if o["idx"]:
            n = int((~np.isnan(a)).sum())
            size = len(a)
            r = [float((n + u + 1 + s) % size) if n else np.nan for s in (0, 1)]
        else:
            r = [put(T("d%d.%d" % (s, u), txt(a) if a.ndim == 1 else rows(a), k[0])) for s in (0, 1)]
        return np.array(r) if o["arr"] else r[0]
    if op == "along":
        def row_nb(i, a, k):
            return np.array([put(T("r%d.%d" % (i, j), txt(a), k)) for j in range(len(a))])
        return v.apply_along_axis(row_nb if o["axis"] else col_nb, 7, axis=o["axis"]), get
    if op == "map":
        def map_nb(i, j, a, k):
            return put(T("m%d.%d" % (i, j), [get(a)], k))
        return v.applymap(map_nb, 7), get
    if op == "filter":
        o["calls"] = []

        def keep_nb(i, j, a, k):
            o["calls"].append(T("%d.%d" % (i, j), [get(a)], k))
            return (2 * (i + 1) + j + 1) % 3 != 0
        return v.filter(keep_nb, 7), get
    if op in ("groupby", "resample"):
        def some_nb(ids, *a):
            at = "[%s]" % " ".join(str(i) for i in ids)
            if o["mat"]:
                return np.array([put(T("G%s.%d" % (at, j), rows(a[0]), a[1])) for j in range(a[0].shape[1])])
            return put(T("g%s.%d" % (at, a[0]), txt(a[1]), a[2]))
        if op == "groupby":
            return v.groupby_apply(np.array(o["by"]), some_nb, 7, on_matrix=o["mat"]), get
        return v.resample_apply("%dD" % o["n"], some_nb, 7, on_matrix=o["mat"]), get
    if op == "apply":
        return v.apply(7, apply_func=lambda x, k: each(what("e", x), x, k), **form), get
    if op == "many":
        def many_nb(i, x, k):
            return each(what("n%d" % i, x), x, k)
        return v.apply_and_concat(o["n"], 7, apply_func=many_nb, keys=keys, numba_loop=o["loop"], **form), get
    if op in ("combine", "concat"):
        xs = []
        for b in o["others"]:
            m = np.array([[put(x) for x in r] for r in b["m"]])
            if b["k"] == "num":
                xs.append(float(m[0, 0]))
            elif rng.integers(2):
                xs.append(m[:, 0] if isinstance(obj, pd.Series) else m)
            else:
                xs.append(like(obj, m[:, 0] if isinstance(obj, pd.Series) else m))
                if rng.integers(2):
                    xs[-1] = xs[-1].vbt
        if op == "concat":
            return v.concat(*xs, keys=keys), get

        def pair_nb(x, y, k):
            r = each(what("k", x), x, y, k)
            return like(x, r) if hasattr(x, "iloc") else r
        return v.combine(xs[0] if len(xs) == 1 and rng.integers(2) else xs, 7, combine_func=pair_nb, concat=o["flat"], keys=keys, numba_loop=o["loop"], **form), get
    if op == "reduce":
        return v.reduce(red_nb, 7, returns_array=o["arr"], returns_idx=o["idx"], flatten=o["flat"], order=o["order"], to_index=o["label"], **by), label if o["idx"] else get
    if op == "apply_reduce":
        return v.apply_and_reduce(col_nb, red_nb, apply_args=(7,), reduce_args=(7,)), get
    if op == "squeeze":
        def sq_nb(i, g, a, k):
            return put(T("q%d.%d" % (i, g), txt(a), k))
        return v.squeeze_grouped(sq_nb, 7, **by), get
    if op == "flatten":
        return v.flatten_grouped(order=o["order"], **by), get
    if op in ("tile", "repeat"):
        return getattr(v, op)(o["n"], keys=keys, axis=o["axis"]), get
    if op in LEVEL:
        ax, place = dict(axis=o["axis"]), o["mat"]
        x = obj.copy() if place else obj
        n = o["n"] - 1
        r = {"stack": lambda: x.vbt.stack_index(keys, on_top=o["top"], inplace=place, **ax), "drop": lambda: x.vbt.drop_levels(n, inplace=place, **ax),
             "select": lambda: x.vbt.select_levels(list(range((obj.columns if o["axis"] else obj.index).nlevels))[::-1] if o["arr"] else n, inplace=place, **ax),
             "rename": lambda: x.vbt.rename_levels({o["ps"][0]: o["ps"][1]}, inplace=place, **ax),
             "lean": lambda: x.vbt.drop_redundant_levels(inplace=place, **ax),
             "dedup": lambda: x.vbt.drop_duplicate_levels(keep=o["keep"], inplace=place, **ax)}[op]()
        return (x if place else r), get
    if op == "shuffle":
        return v.shuffle(seed=o["n"]), get
    if op == "mapped":
        a = v.to_mapped(dropna=o["label"])
        return pd.DataFrame({0: a.values, 1: [T_.put(str(c)) for c in a.col_arr], 2: [T_.put(str(i)) for i in a.idx_arr]}).rename(columns=int), get
    if op == "std":
        return v.std(ddof=o["n"], **by) ** 2, num
    if op in ("idxmin", "idxmax"):
        return getattr(v, op)(order=o["order"], **by), label
    if op == "describe":
        r = v.describe(percentiles=[fl(p) for p in o["ps"]], ddof=o["n"], **by)
        r.loc["std"] = r.loc["std"] ** 2
        return r, num
    if op == "counts":
        on = {k: k in o["opts"] for k in ("sort_uniques", "sort", "ascending", "dropna", "normalize", "incl_all_keys")}
        to = {fl(x): "v" + x for x in o["ps"]} or None
        if o["form"] in ("index", "columns"):
            to = o["form"].title() if o["n"] else o["form"]
        elif o["form"] == "series":
            to = pd.Series(to)
        if o["mat"]:                                          # the accessor's own
            return obj.vbt(mapping=to).value_counts(**on, **by), num
        return v.value_counts(mapping=to, **on, **by), num
    if op == "zscore":
        return v.zscore(), num
    return getattr(v, op)(**by), num


def carry(obj, o, T_, rng):
    """One operation on a real object: the result and what the specification reads of it."""
    cell = num if o["op"] in NUMS else T_.get
    before = read(obj, cell)
    o = dict(o)
    r, how = act(obj, o, T_, rng)
    got = {"t": read(r, how), "kept": read(obj, cell) == before}
    if o["op"] == "shuffle":
        got["again"] = read(act(obj, o, T_, rng)[0], T_.get)
    if o["op"] == "filter":
        got["calls"] = o["calls"]
    return r, got


def case(t, o, rng):
    T_ = Terms()
    obj = build(t, fl if o["op"] in NUMS else T_.put, o["ps"] if o["op"] == "resample" else None)
    return {"t": t, "o": {k: v for k, v in o.items() if k != "calls"}, "got": carry(obj, o, T_, rng)[1]}


OP0 = {"op": "", "n": 0, "axis": 0, "by": [], "gn": "", "order": "C", "mat": False, "arr": False, "idx": False, "label": True, "form": "np", "loop": False,
       "keys": [], "others": [], "flat": False, "ps": [], "opts": [], "top": True, "keep": "last"}
OPS = ["along", "map", "filter", "groupby", "resample", "apply", "reduce", "reduce", "reduce", "apply_reduce", "squeeze", "flatten", "tile", "repeat", "many", "combine",
       "combine", "concat", "stack", "drop", "select", "rename", "lean", "dedup", "shuffle", "mapped", "min", "max", "mean", "median", "std", "sum", "count", "idxmin",
       "idxmax", "describe", "counts", "counts", "zscore"]


def rcase(rng, op=None):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    op = op or c(*OPS)
    ser = bool(c(0, 0, 1)) and op not in ("squeeze", "flatten")
    n, k = int(rng.integers(1, 6)), 1 if ser else int(rng.integers(1, 5))
    letters = lambda m, s: [s[i] for i in range(m)]

    def axis(m, s, many):
        kind = c("plain", "one", "one", "named") if not many or c(0, 1) else c("two", "two", "same", "dup")
        one = letters(m, s)
        if kind == "plain":
            return plain(m)
        if kind in ("one", "named"):
            return [{"n": "" if kind == "one" else "L" + s[0], "v": one}]
        if kind == "two":
            return [{"n": c("", "x1"), "v": [c("u", "w", "0") for _ in range(m)]}, {"n": c("", "x2"), "v": one}]
        if kind == "same":
            return [{"n": c("", "x1"), "v": ["u"] * m}, {"n": "x2", "v": one}]
        return [{"n": "x1", "v": one}, {"n": "x2", "v": [c("u", "w") for _ in range(m)]}, {"n": "x1", "v": one}]
    idx = op in ("idxmin", "idxmax") or op == "reduce" and c(0, 0, 1) == 1
    row_levels = op in LEVEL
    o = dict(OP0, op=op)
    if op == "resample":
        o["ps"] = [str(d) for d in sorted(rng.choice(12, size=n, replace=False).tolist())]
        ix = [{"n": "", "v": o["ps"]}]
    else:
        ix = axis(n, "stuvw", row_levels or not idx and op not in ("groupby", "counts", "describe"))
    cx = [{"n": "", "v": [c("A", "close")]}] if ser else axis(k, "abcde", True)
    if ser and c(0, 1):
        cx = plain(1)
    if op in NUMS:
        cell = lambda: "nan" if rng.random() < .2 else c("1", "2", "3", "-2", "1/2", "7")
    else:
        cell = lambda: "nan" if rng.random() < .2 else "x%d" % int(rng.integers(100))
    t = {"ser": ser, "ix": ix, "cx": cx, "m": [[cell() for _ in range(k)] for _ in range(n)]}
    if not ser and (op in ("squeeze", "flatten") or op in ("reduce", "min", "max", "mean", "median", "std", "sum", "count", "idxmin", "idxmax", "describe", "counts") and c(0, 1)):
        cuts = sorted(int(x) for x in rng.integers(0, 3, k))
        names = list(c("ghi", "ihg", "hgi"))
        o["by"], o["gn"] = [names[x] for x in cuts], c("", "grp")
    o["order"] = c("C", "F")
    if op == "reduce":
        o.update(idx=idx, arr=bool(c(0, 0, 1)), flat=bool(c(0, 1)) if o["by"] else False, label=bool(c(0, 1)))
        if not o["flat"]:
            o["order"] = "C"
    if op == "along":
        o["axis"] = c(0, 1)
    if op in ("groupby", "resample"):
        o["mat"] = bool(c(0, 1))
    if op == "groupby":
        o["by"] = [c("p", "q", "r") for _ in range(n)]
    if op == "resample":
        o["n"] = c(1, 2, 3)
    if op in ("apply", "many", "combine"):
        o["form"] = c("np", "pd", "np2", "pd2")
    if op in ("many", "combine"):
        o["loop"] = o["form"].startswith("np") and bool(c(0, 1))
    if op in ("tile", "repeat"):
        o.update(n=int(rng.integers(1, 4)), axis=c(0, 1))
        if o["n"] == 1 and o["axis"] == 1 and ser:
            o["n"] = 2
    if op == "many":
        o["n"] = int(rng.integers(2 if ser else 1, 4))
    if op in ("combine", "concat"):
        k2 = int(rng.integers(1, 4))
        o["others"] = [{"k": "num", "m": [[cell()]]} if c(0, 0, 1) else {"k": "like", "m": [[cell() for _ in range(k)] for _ in range(n)]} for _ in range(k2)]
        o["flat"] = op == "combine" and bool(c(0, 1))
        blocks = k2 if op == "combine" else k2 + 1
    if op in ("tile", "repeat", "many"):
        blocks = o["n"]
    if op in ("tile", "repeat", "many", "combine", "concat") and c(0, 1):
        o["keys"] = [{"n": c("", "key"), "v": letters(blocks, "PQRS")}]
        if op == "tile" and len({tuple(l["v"]) for l in cx}) == 0:
            o["keys"] = []
    if op in LEVEL:
        o["axis"] = 0 if ser else c(0, 1)
        ls = ix if o["axis"] == 0 else cx
        o["mat"] = bool(c(0, 0, 1))
        o["n"], o["arr"] = int(rng.integers(1, len(ls) + 1)), bool(c(0, 1))
        o["top"], o["keep"] = bool(c(0, 1)), c("first", "last")
        if op == "stack":
            m = len(ls[0]["v"])
            o["keys"] = c(plain(m), [{"n": c("", "x1", "new"), "v": c(["K"] * m, letters(m, "abcde"), letters(m, "PQRST"))}])
        names = [l["n"] for l in ls]
        if op == "select" and len(ls) == 1 or op == "rename" and not [x for x in names if x and names.count(x) == 1]:
            return rcase(rng, op)
        if op == "rename":
            o["ps"] = [c(*[x for x in names if x and names.count(x) == 1]), "fresh"]
    if op == "shuffle":
        o["n"] = int(rng.integers(50))
    if op == "mapped":
        o["label"] = bool(c(0, 1))
    if op in ("std", "describe"):
        o["n"] = c(0, 1, 1, 2)
    if op == "describe":
        q = c(["1/4", "1/2", "3/4"], ["1/10", "1/2", "9/10"], ["1/2"], ["1/2", "4/5"])
        o["ps"], o["opts"] = q, ["%d%%" % round(100 * fl(p)) for p in q]
    if op == "counts":
        o["opts"] = [x for x in ("sort_uniques", "sort", "ascending", "dropna", "normalize", "incl_all_keys") if c(0, 1)]
        if c(0, 1):
            o["ps"] = [str(x) for x in rng.permutation(["1", "2", "3", "-2", "1/2", "7", "9"] + ["nan"] * c(0, 1))]
            o["form"], o["mat"], o["n"] = c("dict", "series", "index", "columns"), bool(c(0, 0, 1)), c(0, 1)
            one = t["ix" if o["form"] == "index" else "cx"]
            if o["form"] in ("index", "columns"):
                if len(one) == 1 and not (ser and o["form"] == "columns"):
                    m = len(one[0]["v"])
                    o["ps"] = [str(i) for i in range(m)]
                    t["m"] = [["nan" if x == "nan" else c(*o["ps"]) for x in r] for r in t["m"]]
                else:
                    o["form"] = "dict"
        elif "incl_all_keys" in o["opts"]:
            o["opts"].remove("incl_all_keys")
        if "dropna" in o["opts"] and "normalize" in o["opts"] and all(x == "nan" for r in t["m"] for x in r):
            o["opts"].remove("normalize")
    if op in ("idxmin", "idxmax") and o["by"]:
        for lab in set(o["by"]):
            js = [j for j, x in enumerate(o["by"]) if x == lab]
            if all(t["m"][i][j] == "nan" for i in range(n) for j in js):
                t["m"][0][js[0]] = "3"
    return case(t, o, rng)
