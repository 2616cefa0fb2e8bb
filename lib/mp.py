"""Mappings of the real library against Mapping.tla."""
from collections import namedtuple
from fractions import Fraction
import numpy as np, pandas as pd
import vectorbt as vbt
from vectorbt.utils.mapping import apply_mapping, to_mapping, reverse_mapping
from vectorbt.utils.enum_ import map_enum_fields, map_enum_values
NULL = {"t": "n", "v": "", "w": []}
TYPES = {"i": int, "s": str, "f": float, "b": bool}
WORDS = ["aa", "AA", "Aa", "bb", "BB", "Bb", "cc", "Cc", "CC"]


def split(s):
    out, i = [], 0
    while i < len(s):
        n = 1 if s[i] == "_" else 2
        out.append(s[i:i + n])
        i += n
    return out


def enc(x):
    if x is None or (not isinstance(x, str) and pd.isnull(x)):
        return NULL
    if isinstance(x, str):
        return {"t": "s", "v": "", "w": split(x)}
    t = "b" if isinstance(x, (bool, np.bool_)) else "i" if isinstance(x, (int, np.integer)) else "f"
    return {"t": t, "v": str(Fraction(float(x)).limit_denominator(1000)), "w": []}


def dec(e):
    if e["t"] == "n":
        return None
    if e["t"] == "s":
        return "".join(e["w"])
    f = Fraction(e["v"])
    return bool(f) if e["t"] == "b" else int(f) if e["t"] == "i" else float(f)


def build(m):
    ks, vs = [dec(x) for x in m["ks"]], [dec(x) for x in m["vs"]]
    return {"none": lambda: None, "list": lambda: vs, "index": lambda: pd.Index(vs, dtype=object), "series": lambda: pd.Series(vs, index=pd.Index(ks, dtype=object), dtype=object),
            "dict": lambda: dict(zip(ks, vs)), "enum": lambda: namedtuple("E", ks)(*vs)}[m["k"]]()


def options(o):
    ts = [TYPES[t] for t in o["types"]]
    return dict(reverse=o["rev"], ignore_case=o["case"], ignore_underscores=o["under"], ignore_missing=o["miss"], na_sentinel=dec(o["na"]),
                ignore_type=None if not ts else ts[0] if len(ts) == 1 else tuple(ts))


def make(x):
    d = [[dec(e) for e in c["d"]] for c in x["cols"]]
    k = x["k"]
    dt = [{"i": np.int64, "f": np.float64, "b": np.bool_, "s": None, "o": object}[c["dt"]] for c in x["cols"]]
    arr = lambda j: np.array(d[j], dtype=dt[j])
    if k == "scalar":
        return d[0][0]
    if k in ("tuple", "list", "set", "frozenset"):
        return {"tuple": tuple, "list": list, "set": set, "frozenset": frozenset}[k](d[0])
    if k == "array":
        return arr(0)
    if k == "array2":
        return np.column_stack([arr(j) for j in range(len(d))])
    if k == "series":
        return pd.Series(arr(0), index=["r%d" % i for i in range(len(d[0]))], name="nm")
    if k == "index":
        return pd.Index(arr(0), name="nm")
    return pd.DataFrame({"c%d" % j: arr(j) for j in range(len(d))}, index=["r%d" % i for i in range(len(d[0]))])


def kind(r):
    if isinstance(r, np.ndarray):
        return "array2" if r.ndim == 2 else "array"
    for k, t in (("series", pd.Series), ("frame", pd.DataFrame), ("index", pd.Index), ("tuple", tuple), ("list", list), ("set", set), ("frozenset", frozenset)):
        if isinstance(r, t):
            return k
    return "scalar"


def read(r, obj):
    k = kind(r)
    if k == "scalar":
        cols = [[r]]
    elif k in ("array2", "frame"):
        a = np.asarray(r, dtype=object)
        cols = [list(a[:, j]) for j in range(a.shape[1])]
    else:
        cols = [list(r)]
    same = True
    if k in ("series", "frame") and kind(obj) == k:
        same = list(r.index) == list(obj.index) and (list(r.columns) == list(obj.columns) if k == "frame" else r.name == obj.name)
    if k == "index" and kind(obj) == k:
        same = r.name == obj.name
    return {"k": k, "cols": [[enc(v) for v in c] for c in cols], "labels": bool(same), "err": ""}


def call(fn, obj):
    try:
        return read(fn(obj), obj)
    except KeyError:
        return {"k": "", "cols": [], "labels": True, "err": "KeyError"}


def exhaust(b):
    """Scalars looked up one by one."""
    m, kw = build(b["m"]), options(b["o"])
    return [call(lambda x: apply_mapping(x, m, **kw), dec(x)) for x, _ in b["q"]]


def case(rng):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]

    def text():
        return {"t": "s", "v": "", "w": c([c(*WORDS)], [c(*WORDS)], [c(*WORDS), c(*WORDS)], [c(*WORDS), "_", c(*WORDS)])}

    num = lambda: {"t": "i", "v": str(int(rng.integers(-1, 5))), "w": []}
    real = lambda: {"t": "f", "v": c("1/2", "1", "-1", "3"), "w": []}
    bit = lambda: {"t": "b", "v": c("0", "1"), "w": []}
    kd = c("dict", "dict", "series", "list", "index", "enum", "enum", "enum", "none")
    n = int(rng.integers(1, 6))
    ks, vs = [], []
    for _ in range(n):
        k = text() if kd == "enum" else c(text, num, num, real)() if rng.random() < .9 else NULL
        if any(dec(k) == dec(x) for x in ks):
            continue
        v = num() if kd == "enum" else c(text, num)() if rng.random() < .9 else NULL
        if kd == "enum" and any(dec(v) == dec(x) for x in vs):
            continue
        ks.append(k)
        vs.append(v)
    m = {"k": kd, "ks": ks, "vs": vs}
    o = {"case": bool(c(0, 1)), "under": bool(c(0, 1)), "miss": bool(c(0, 0, 1)), "na": c(NULL, NULL, num(), text()), "rev": bool(c(0, 0, 1)), "types": c([], [], ["i"], ["s"], ["f"], ["b"], ["i", "s"])}
    mapping = build(m)
    fn = lambda x: apply_mapping(x, mapping, **options(o))
    how = c("fn", "fn", "fields", "values", "accessor")
    if kd == "enum" and how in ("fields", "values"):
        o["rev"] = how == "fields"
        o["types"] = c(["i"] if o["rev"] else ["s"], o["types"])
        kw = options(o)
        kw.pop("reverse")
        if o["types"] == (["i"] if o["rev"] else ["s"]):
            kw.pop("ignore_type")
        fn = lambda x: (map_enum_fields if o["rev"] else map_enum_values)(x, mapping, **kw)
    k = c("scalar", "tuple", "list", "set", "frozenset", "array", "array", "array2", "series", "series", "index", "frame", "frame")
    if how == "accessor" and k in ("series", "frame") and kd != "none":
        fn = lambda x: x.vbt(mapping=mapping).apply_mapping(**options(o))
    keys = [p for p in (vs if o["rev"] and kd != "enum" else ks if (o["rev"] or kd in ("dict", "series")) else vs if kd == "enum" else [enc(i) for i in range(len(vs))])]
    strange = .06

    def some(t):
        mine = [x for x in keys if x["t"] == t]
        if mine and rng.random() > strange:
            x = c(*mine)
            if t == "s" and (o["case"] or o["under"]) and c(0, 1):
                w = [(u.swapcase() if len(set((u.lower(), u))) else u) if o["case"] else u for u in x["w"]]
                w = [u if u in WORDS or u == "_" else u.lower() for u in w]
                if o["under"]:
                    w = [u for u in w if u != "_"]
                    if c(0, 1):
                        w = w[:1] + ["_"] + w[1:]
                x = dict(x, w=w)
            return x
        if t == "i":
            return num() if rng.random() < .3 or not mine else c(*mine)
        return {"s": text, "f": real, "b": bit}[t]()
    rows = int(rng.integers(1, 5)) if k != "scalar" else 1
    cols = []
    have = sorted({x["t"] for x in keys if x["t"] in "isf"}) or ["i"]
    one = c(*have) if rng.random() < .9 else c("i", "s", "f", "b")
    for j in range(int(rng.integers(1, 4)) if k in ("array2", "frame") else 1):
        t = one if k == "array2" else c(*have) if rng.random() < .9 else c("i", "s", "f", "b")
        if k in ("scalar", "tuple", "list", "set", "frozenset"):
            d = [NULL if rng.random() < .1 else some(c(*have) if rng.random() < .9 else c("i", "s", "f", "b")) for _ in range(rows)]
            dt = "o"
        else:
            d = [some(t) for _ in range(rows)]
            dt = t if k == "array2" else c(t, t, "o")
            if dt in ("o", "f") and k != "array2":
                d = [NULL if i and rng.random() < .2 else x for i, x in enumerate(d)]
        cols.append({"dt": dt, "d": d})
    if rng.random() < .03 and k in ("tuple", "list", "set", "frozenset", "array", "series", "index"):
        cols = [{"dt": "o", "d": []}]
    if k in ("set", "frozenset"):       # equal values are one
        d = cols[0]["d"]
        cols[0]["d"] = [e for i, e in enumerate(d) if not any(dec(e) == dec(f) for f in d[:i])]
    x = {"k": k, "cols": cols}
    obj = make(x)
    before = read(obj, obj)
    got = call(fn, obj)
    again = read(obj, obj)
    return {"x": x, "m": m, "o": o, "got": got, "kept": before == again if k not in ("set", "frozenset") else True}


def enums():
    """Every enumeration of the library as cases: names in any writing to values, values to names."""
    import vectorbt.portfolio.enums as pe, vectorbt.signals.enums as se, vectorbt.generic.enums as ge, vectorbt.labels.enums as le
    out = []
    for mod in (pe, se, ge, le):
        for name in dir(mod):
            e = getattr(mod, name)
            if isinstance(e, tuple) and hasattr(e, "_fields") and all(isinstance(v, int) and not isinstance(v, bool) for v in e):
                out.append((name, e))
    return out
