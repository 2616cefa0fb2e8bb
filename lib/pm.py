"""Real indicators with many parameters against Params.tla."""
import itertools
from collections import namedtuple
import numpy as np, pandas as pd
import vectorbt as vbt
from vectorbt.base import combine_fns as cf
from bc import index, unindex
from vb import num

Enum = namedtuple("Enum", ["Lo", "Mid", "Hi"])(2, 5, 7)
COMB = {"combinations": itertools.combinations, "product": itertools.product, "permutations": itertools.permutations, "combinations_with_replacement": itertools.combinations_with_replacement}


def arr(a):
    """A Bc input with integer cells as a real object."""
    v = np.array(a["v"], dtype=float)
    if a["k"] == "s":
        return float(v[0])
    if a["k"] == "1":
        return v
    m = v.reshape(a["r"], a["c"])
    if a["k"] == "2":
        return m
    if a["k"] == "sr":
        n = a["cx"][0]["v"][0]
        n = int(n) if n.isdigit() else n
        return pd.Series(v, index=index(a["ix"]), name=None if n == 0 else n)
    return pd.DataFrame(m, index=index(a["ix"]), columns=index(a["cx"]))


def value(v, kind):
    """A parameter value as the user passes it."""
    if kind == "bool":
        return v["l"] == "True"
    if kind == "map":
        return {2: "lo", 5: "mid", 7: "hi"}[v["w"][0]]
    if v["k"] == "t":
        return tuple(v["w"])
    if v["k"] == "f":
        return np.array(v["w"]).reshape(v["shape"])
    return v["w"][0] if v["k"] == "s" else np.array(v["w"])


def grid(p, kind, R, C):
    """The numbers of a received parameter value as an array over rows and columns."""
    if kind == "t":
        return int(sum(p))
    a = np.asarray(p)
    return a.reshape({"r": (R, 1), "c": (1, C), "f": (R, C)}[kind]) if a.ndim and a.size > 1 else int(a.ravel()[0])


class Toy:
    """The indicator of Params.tla, built one of several ways."""

    def __init__(self, g, h):
        self.g, self.h = g, h
        self.np_, self.ni, self.no = len(g["ps"]), len(g["ino"]), h["outs"]
        self.given = [i["given"] for i in g["ino"]]
        self.names = ["p", "q"][:self.np_]
        self.nin = 0 if h["noin"] else 2
        self.fac = vbt.IndicatorFactory(input_names=["x", "y"][:self.nin], param_names=self.names, in_output_names=["a", "b"][:self.ni], output_names=["u", "v"][:self.no],
                                        short_name=h["short"], prepend_name=h["prepend"])
        kw = {"param_settings": {n: s for n, s in zip(self.names, h["settings"]) if s}}
        for n, p in zip(self.names, g["ps"]):
            if p["n"] in h["defaults"]:
                kw[n] = h["defaults"][n]
        if h["hide"] is not None:
            kw["hide_params"] = h["hide"]
        if h["kwargs"]:
            kw["scale"] = 0
        if h["how"] == "custom":
            self.cls = self.fac.from_custom_func(self.custom, var_args=True, **kw)
        elif h["how"] == "numba":
            self.cls = self.fac.from_apply_func(NUMBA["fill"](self.given[0], self.no, self.np_) if self.ni else NUMBA[self.ni, self.no, self.np_], numba_loop=h["loop"], var_args=False, **kw)
        else:
            self.cls = self.fac.from_apply_func(self.apply, cache_func=self.cache if g["cached"] else None, pass_packed=h["packed"], var_args=True,
                                                kwargs_to_args=["scale"] if h["kwargs"] else None, **kw)

    def split(self, args):
        g, h = self.g, self.h
        args = list(args)
        sh = args.pop(0) if g["shape"] else None
        col = args.pop(0) if g["passcol"] and g["percol"] else 0
        if h["packed"]:
            ins, ino, ps = args[:3]
            args = args[3:]
        else:
            n = self.nin
            ins, ino, ps = args[:n], args[n:n + self.ni], args[n + self.ni:n + self.ni + self.np_]
            args = args[n + self.ni + self.np_:]
        arg = args.pop(0) if g["arg"] else 0
        if h["kwargs"]:
            args.pop(0)
        flex = bool(args.pop(0)) if g["flex"] else False
        return sh, col, ins, ino, ps, arg, flex, args

    def cells(self, ins, ino, ps, extra):
        if self.h["noin"]:
            a = self.g["args"][0]
            ins = [np.zeros((a["r"], 1 if self.g["percol"] else a["c"]))] * 2
        X, Y = np.asarray(ins[0]), np.asarray(ins[1])
        one = X.ndim == 1
        if one:
            X, Y = X[:, None], Y[:, None]
        R, C = X.shape
        w = [grid(p, q["vals"][0]["k"] if not q["mixed"] else q["mixed"], R, C) for p, q in zip(ps, self.g["ps"])] + [0, 0]
        for n, a in enumerate(ino):
            A = a[:, None] if a.ndim == 1 else a
            A[:] = (A if self.given[n] else 0) + (n + 1) * w[n] + (X if n == 0 else 2 * np.arange(1, R + 1)[:, None])
        u = X * w[0] + 100 * Y + 10000 * w[1] + extra
        v = np.cumsum(X, axis=0) + 10 * w[0] - Y[:1]
        out = [z[:, 0] if one else z for z in (u, v)][:self.no]
        return out[0] if self.no == 1 else None if self.no == 0 else tuple(out)

    def apply(self, *args, **kw):
        sh, col, ins, ino, ps, arg, flex, rest = self.split(args)
        extra = col * 1000000 + arg * 1000000000 + (200000000 if flex else 0)
        if sh is not None:
            extra += int(np.prod(sh)) * 10000000
        if self.g["cached"] and self.np_:
            extra += rest[0]["%r" % (tuple(np.asarray(p).tolist() for p in ps),)]
        return self.cells(ins, ino, ps, extra)

    def cache(self, *args, **kw):
        h, g = self.h, self.g
        args = list(args)
        if g["shape"]:
            args.pop(0)
        if g["passcol"] and g["percol"]:
            args.pop(0)
        ps = args[self.nin + self.ni:self.nin + self.ni + self.np_]
        return {"%r" % (tuple(np.asarray(p).tolist() for p in t),): 5 * int(np.sum(np.asarray(t[0]))) for t in zip(*ps)}

    def custom(self, *args, **kw):
        g = self.g
        if self.h["aslists"]:
            ins, ino, ps = args[:3]
            args = args[3:]
        else:
            n = self.nin
            ins, ino, ps = args[:n], args[n:n + self.ni], args[n + self.ni:n + self.ni + self.np_]
            args = args[n + self.ni + self.np_:]
        arg = args[0] if g["arg"] else 0
        extra = arg * 1000000000 + kw.get("col", 0) * 1000000 + (200000000 if kw.get("flex_2d", False) else 0)
        if g["shape"]:
            extra += int(np.prod(kw["input_shape"])) * 10000000
        n = len(ps[0]) if self.np_ else 1
        f = lambda i: self.cells(ins, [a[i] for a in ino], [p[i] for p in ps], extra)
        return {0: cf.apply_and_concat_none, 1: cf.apply_and_concat_one, 2: cf.apply_and_concat_multiple}[self.no](n, f)

    def call(self, combs=None):
        """Run it, and return what run() returned, or None when refused, with the in-place outputs given."""
        g, h = self.g, self.h
        ins = [] if h["noin"] else [arr(a) for a in g["args"]]
        ino = [arr(i["a"]) if i["given"] else None for i in g["ino"]]
        kw = dict(param_product=g["prod"], per_column=g["percol"], pass_col=g["passcol"], pass_input_shape=g["shape"], pass_flex_2d=g["flex"], hide_default=g["hd"],
                  to_2d=h["to2d"], keep_pd=h["keeppd"], stacking_kwargs={"drop_duplicates": g["o"]["dup"], "keep": g["o"]["keep"], "drop_redundant": g["o"]["red"]},
                  silence_warnings=True)
        if h["how"] == "custom":
            kw["as_lists"] = h["aslists"]
        if h["noin"] == "shape":
            a = g["args"][0]
            kw["input_shape"] = (a["r"],) if a["k"] == "sr" else (a["r"], a["c"])
            kw.update(input_index=index(a["ix"]), input_columns=index(a["cx"]))
        kw.update({n: a for n, a in zip("ab", ino) if a is not None})
        if h["hide2"] is not None:
            kw["hide_params"] = h["hide2"]
        pos = []
        for n, p, ref in zip(self.names, h["pass"], h["ref"]):
            if n in h["defaults"] and p is None:
                continue
            v = ref or p
            if n in h["defaults"]:
                kw[n] = v
            else:
                pos.append(v)
        # by keyword as soon as one is given so
        if g["arg"]:
            if any(n in kw for n in self.names):
                pos, kw = pos, kw
            pos.append(1)
        if combs is None:
            kw["run_unique"] = h["unique"]
            if h["cachekw"]:
                kw["use_cache"] = self.cls.run(*ins, *pos, return_cache=True, **kw)
            if h["raw"]:
                kw["use_raw"] = self.cls.run(*ins, *pos, return_raw=True, **kw)
            if h["seed"]:
                kw["seed"] = 3
        else:
            kw.update(r=combs["r"], comb_func=COMB[combs["how"]], run_unique=h["unique"], short_names=h["shorts"])
        ret = (self.cls.run if combs is None else self.cls.run_combs)(*ins, *pos, **kw)
        return ret, [[] if a is None else [int(z) for z in np.asarray(a).ravel()] for a in ino]


def cols2(o):
    a = np.asarray(o)
    a = a[:, None] if a.ndim == 1 else a
    return [[int(z) for z in a[:, j]] for j in range(a.shape[1])]


def see(t, i):
    if not t.nin:
        i.x = i.y = np.zeros(i.wrapper.shape_2d)
    return {"cx": unindex(i.wrapper.columns), "ix": unindex(i.wrapper.index), "x": cols2(i.x), "y": cols2(i.y), "ino": [cols2(getattr(i, n)) for n in "ab"[:t.ni]],
            "out": [cols2(getattr(i, n)) for n in "uv"[:t.no]], "maps": [[str(z) for z in getattr(i, "_%s_mapper" % n)] for n in t.names],
            "series": bool(i.wrapper.ndim == 1), "lists": [[[int(y) for y in np.ravel(z)] for z in getattr(i, n + "_list")] for n in t.names]}


def lev(rng, n, names=("", "", "t", "k")):
    k = rng.integers(4)
    v = [str(i) for i in range(n)] if k == 0 else ["x"] * n if k == 1 else [str(z) for z in rng.permutation(list("abcdef"))[:n]]
    return {"n": "" if k == 0 else str(rng.choice(names)), "v": v}


def plain(n):
    return [{"n": "", "v": [str(i) for i in range(n)]}]


def inputs(rng, c, R, C, n, series):
    """Inputs that broadcast together to R rows and C columns."""
    ix = plain(R) if c(0, 1) else [{"n": c("", "t"), "v": list("pqrstuvw")[:R]}]
    cx = [lev(rng, C)] if c(0, 1, 1) else [lev(rng, C), {"n": "", "v": [str(z) for z in rng.permutation(list("ghijkl"))[:C]]}]
    out = []
    for i in range(n):
        if i == 0:
            k = "sr" if series else c("fr", "fr", "fr", "2")
        else:
            k = c("s", "sr", "1", "sr") if series else c("s", "fr", "fr", "2", "1", "sr")
        if k == "1":
            r, q = (R if series else C), 1
        else:
            r, q = (1, 1) if k == "s" else (R, 1) if k == "sr" else (R, C)
        v = [int(z) for z in rng.integers(1, 9, r * q)]
        out.append({"k": k, "r": r, "c": q, "v": v, "ix": ix if k in ("sr", "fr") else [], "cx": [] if k not in ("sr", "fr") else ([{"n": "", "v": [c("0", "a")]}] if k == "sr" else cx)})
    if series:
        # one name for all series
        for a in out:
            if a["k"] == "sr":
                a["cx"] = out[0]["cx"]
    return out


def param(rng, c, nm, R, C, percol, how, series):
    """A parameter: its values, how they are passed and the settings."""
    kind = c("int", "int", "int", "bool", "map", "enum", "tuple", "array")
    if how == "numba":
        kind = "int"
    n = c(1, 1, 2, 3, 3, 4)
    if percol:
        n = c(1, C)
    st, dup = {}, c(True, False)
    pick = lambda pool: [pool[int(z)] for z in (rng.integers(0, len(pool), n) if dup else rng.permutation(len(pool))[:n])]
    mixed = ""
    pc = False
    if kind == "bool":
        vals = [{"l": str(b), "k": "s", "w": [int(b)]} for b in [bool(z) for z in rng.integers(0, 2, n)]]
    elif kind in ("map", "enum"):
        vals = [{"l": str(z), "k": "s", "w": [z]} for z in pick([2, 5, 7] * 2)]
        st["dtype"] = {"lo": 2, "mid": 5, "hi": 7} if kind == "map" else Enum
        kind = "map"
    elif kind == "tuple":
        st["is_tuple"] = True
        vals = [{"l": "", "k": "t", "w": [int(y) for y in rng.integers(1, 5, int(rng.integers(1, 4)))]} for _ in range(n)]
        if dup and n > 1:
            vals[-1] = vals[0]
    elif kind == "array":
        st["is_array_like"] = True
        s = c("r", "f") if percol else c("r", "c", "f", "c")
        shape = [R] if s == "r" or (s == "f" and (percol or series)) else [1 if series or percol else C] if s == "c" else [R, C]
        if s == "f" and len(shape) == 1:
            s2 = "f"
        st["bc_to_input"] = {"r": 0, "c": 1, "f": True}[s]
        if s == "c" and not percol:
            pc = c(True, False)
            if pc:
                st["per_column"] = True
        size = int(np.prod(shape))
        vals = []
        for _ in range(n):
            w = [int(z) for z in rng.integers(1, 9, size)]
            if c(0, 0, 1):
                w = [w[0]] * size
            vals.append({"l": "", "k": "r" if s == "f" and percol else s, "w": w, "shape": shape, "flat": bool(len(set(w)) == 1 and c(0, 1))})
        if dup and n > 1:
            vals[-1] = vals[0]
        mixed = vals[0]["k"]
    else:
        vals = [{"l": str(z), "k": "s", "w": [z]} for z in pick(list(range(1, 9)))]
        if c(0, 0, 1):
            vals = sorted(vals, key=lambda v: v["w"])
    def real(v):
        if v.get("flat"):
            return v["w"][0]
        if v["k"] == "r" and kind == "array" and st["bc_to_input"] is True and not percol and not series:
            return np.array(v["w"])
        return value(v, kind)
    r = [real(v) for v in vals]
    if len(r) == 1 and c(0, 1):
        passed = r[0]
    elif kind in ("int", "bool") and c(0, 0, 1):
        passed = np.array(r)
    elif kind not in ("tuple", "map") and c(0, 0, 1):
        passed = tuple(r)
    else:
        passed = r
    return {"n": nm, "vals": [{q: v[q] for q in ("l", "k", "w")} for v in vals], "hide": False, "dflt": False, "pc": pc, "mixed": mixed, "kind": kind}, passed, st


def config(rng, how=None):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    R, C = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    series = c(True, False, False)
    C = 1 if series else C
    percol = c(True, False, False, False) and how != "numba"
    how = how or c("apply", "apply", "apply", "custom")
    npar, ni, outs = c(0, 1, 1, 2, 2, 2), c(0, 0, 0, 1, 2), c(1, 2)
    if how == "numba":
        npar, ni = c(1, 2), c(0, 1)
    a = inputs(rng, c, R, C, 2 + ni, series)
    ino = [{"given": bool(c(True, False)), "a": z} for z in a[2:]]
    ps, passed, st = [], [], []
    for nm in ["p", "q"][:npar]:
        p, v, s = param(rng, c, nm, R, C, percol, how, series)
        ps.append(p), passed.append(v), st.append(s)
    prod = bool(c(0, 0, 1))
    n = max([len(p["vals"]) for p in ps] + [1])
    if not prod and not percol and npar == 2 and c(0, 1, 1, 1, 1, 1, 1):
        # of one length
        for i, p in enumerate(ps):
            if 1 < len(p["vals"]) < n and isinstance(passed[i], (list, tuple, np.ndarray)):
                q = min(len(z["vals"]) for z in ps)
                for j, w in enumerate(ps):
                    if len(w["vals"]) > 1 and isinstance(passed[j], (list, tuple, np.ndarray)):
                        w["vals"], passed[j] = w["vals"][:q], passed[j][:q]
    ref = [None] * npar
    if npar == 2 and ps[0]["kind"] == "int" and c(0, 0, 0, 1):
        ps[1], ref[1], st[1] = {**ps[0], "n": "q"}, "p", st[0]
    defaults, hide = {}, None
    # a class default for the last parameter
    if npar and ref[-1] is None and c(0, 0, 1):
        defaults[ps[-1]["n"]] = passed[-1]
        if c(0, 1):
            ps[-1]["dflt"] = True
            passed[-1] = None
    hide2 = None
    if npar and c(0, 0, 1):
        hs = [p["n"] for p in ps if c(0, 1)]
        for p in ps:
            p["hide"] = p["n"] in hs
        if c(0, 1):
            hide = hs
        else:
            hide2 = hs
    apply = how == "apply"
    cached = bool(apply and npar and c(0, 0, 1) and not any(p["kind"] == "array" for p in ps))
    keeppd = bool(how != "numba" and ni == 0 and c(0, 0, 0, 1))
    packed = bool(apply and c(0, 0, 0, 1))
    prepend = c(True, True, False)
    short = c("custom", "my")
    uniq = bool(how == "apply" and c(0, 1))
    noin = c("", "", "", "", "shape", "free") if how != "numba" and not keeppd and not any(i["given"] for i in ino) else ""
    if noin == "free" and (ino or percol or any(p["kind"] == "array" for p in ps)):
        noin = "shape"
    if noin:
        f = {"k": "sr" if series or C == 1 and noin == "free" else "fr", "r": R, "c": C, "v": [0] * (R * C), "ix": plain(R), "cx": plain(C)}
        if noin == "shape":
            f.update({q: z for q, z in zip(("ix", "cx"), (a[0]["ix"], a[0]["cx"])) if a[0]["k"] == "fr" and c(0, 1)})
        a = [f, f] + a[2:]
    o = {"dup": bool(c(1, 1, 0)), "keep": c("last", "first"), "red": bool(c(1, 1, 0))}
    g = {"args": a[:2], "ino": ino, "ps": ps, "pre": short + "_" if prepend else "", "prod": prod, "percol": percol, "hd": bool(c(1, 1, 0)), "o": o, "cached": cached,
         "passcol": bool(percol and c(0, 1)), "shape": bool(how != "numba" and noin != "free" and c(0, 0, 1)), "flex": bool(how != "numba" and noin != "free" and c(0, 0, 1)), "arg": 0}
    if how != "numba" and not defaults:
        g["arg"] = c(0, 0, 1)
    h = {"how": how, "outs": outs, "short": short, "prepend": prepend, "settings": st, "defaults": defaults, "hide": hide, "hide2": hide2, "kwargs": bool(apply and c(0, 0, 1)), "packed": packed,
         "aslists": bool(c(0, 1)), "to2d": True if how == "numba" else bool(c(1, 1, 0)), "keeppd": keeppd, "pass": passed, "ref": ref, "unique": uniq, "cachekw": bool(cached and c(0, 1)),
         "raw": False, "noin": noin, "seed": bool(c(0, 0, 0, 1)), "loop": bool(c(0, 1)), "shorts": None}
    if how == "custom" and uniq:
        h["unique"] = False
    return g, h


def spec(g):
    return {**g, "ps": [{k: p[k] for k in ("n", "vals", "hide", "dflt", "pc")} for p in g["ps"]]}


def runop(t):
    try:
        i, after = t.call()
    except ValueError as e:
        if "cannot be broadcast to" not in str(e):
            raise
        return None, {"op": "run", "g": spec(t.g), "raised": True}
    return i, {"op": "run", "g": spec(t.g), "raised": False, "got": see(t, i), "after": after}


def selop(rng, t, i):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    maps = [[z for z in getattr(i, "_%s_mapper" % n)] for n in t.names]
    n, R = i.wrapper.shape_2d[1], i.wrapper.shape[0]
    k = c("param", "param", "range", "place", "tuple")
    kinds = [p["kind"] for p in t.g["ps"]]
    if k == "tuple" and len(maps) == 2:
        key = lambda q: (maps[0][q], maps[1][q])
        qs = [int(z) for z in rng.integers(0, n, c(1, 1, 2))]
        single = len(qs) == 1 and c(True, False)
        j = i.tuple_loc[key(qs[0]) if single else [key(q) for q in qs]]
        return j, {"op": "sel", "how": "param", "ps": [1, 2], "keys": [[str(z) for z in key(q)] for q in qs], "single": single, "got": see(t, j)}
    if k == "param" and maps:
        u = int(rng.integers(len(maps)))
        qs = [int(z) for z in rng.integers(0, n, c(1, 1, 1, 2, 3))]
        single = len(qs) == 1 and c(True, True, False)
        vs = [maps[u][q] for q in qs]
        loc = getattr(i, t.names[u] + "_loc")
        j = loc[vs[0] if single else vs]
        return j, {"op": "sel", "how": "param", "ps": [u + 1], "keys": [[str(v)] for v in vs], "single": single, "got": see(t, j)}
    if k == "range" and maps and kinds[0] in ("int", "map") and maps[0] == sorted(maps[0]):
        lo, hi = sorted(c(*maps[0]) for _ in range(2))
        j = i.p_loc[lo:hi]
        return j, {"op": "sel", "how": "range", "ps": [1], "lo": int(lo), "hi": int(hi), "got": see(t, j)}
    cs = [int(z) for z in (rng.permutation(n) if c(0, 1) else np.arange(n))[:int(rng.integers(1, n + 1))]]
    rs = list(range(int(rng.integers(0, R)), R)) if c(0, 1) else list(range(R))
    j = i.iloc[rs, cs] if c(0, 1) or rs != list(range(R)) else i.iloc[:, cs]
    return j, {"op": "sel", "how": "place", "cols": [z + 1 for z in cs], "rows": [z + 1 for z in rs], "got": see(t, j)}


def combop(rng, t):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    how = c(*COMB)
    r = c(1, 2, 2, 3)
    t.h["shorts"] = c(None, ["s%d" % z for z in range(r)])
    ret, after = t.call({"r": r, "how": how})
    short = lambda z: t.h["short"] + "_%d" % (z + 1) if t.h["shorts"] is None else t.h["shorts"][z]
    return {"op": "combs", "g": spec(t.g), "r": r, "how": how, "pre": [short(z) + "_" if t.h["prepend"] else "" for z in range(r)], "got": [see(t, j) for j in ret], "after": after}


def tree(rng):
    """Values combined by nested calls of itertools."""
    from vectorbt.utils.params import create_param_combs
    c = lambda *xs: xs[int(rng.integers(len(xs)))]

    def make(depth, budget):
        if depth > 2 or (depth and c(0, 1)):
            v = [int(z) for z in rng.integers(0, 9, c(1, 2, 2, 3))]
            return {"f": "values", "v": v, "a": [], "r": 0}, v, len(v)
        f = c("product", "zip", "product", *COMB)
        if f in ("product", "zip"):
            subs = [make(depth + 1, budget) for _ in range(c(1, 2, 2, 3))]
            ns = [z[2] for z in subs]
            n = int(np.prod(ns)) if f == "product" else min(ns)
            return {"f": f, "v": [], "a": [z[0] for z in subs], "r": 0}, ({"product": itertools.product, "zip": zip}[f], *[z[1] for z in subs]), n
        r = c(1, 2, 2, 3) if depth < 2 else c(1, 2)
        t, o, n = make(depth + 1, budget)
        n = n ** r
        return {"f": f, "v": [], "a": [t], "r": r}, (COMB[f], o, r), n

    while True:
        t, o, n = make(0, 0)
        if n <= 200:
            break
    return {"ops": [{"op": "tree", "tree": t, "got": [[int(z) for z in p] for p in create_param_combs(o)]}]}


def case(rng, how=None):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    g, h = config(rng, how)
    t = Toy(g, h)
    ops = []
    for _ in range(c(1, 2)):
        i, op = runop(t)
        ops.append(op)
        if i is None:
            return {"ops": ops}
        if i.wrapper.ndim == 2:
            for _ in range(c(0, 1, 2)):
                i, op = selop(rng, t, i)
                ops.append(op)
        if g["ps"] and not g["percol"] and len(ops[0]["got"]["out"][0]) <= 15 and c(0, 1):
            ops.append(combop(rng, t))
    return {"ops": ops}


NUMBA = {}


def compiled():
    """Compiled functions of the same meaning."""
    from numba import njit

    @njit
    def f11(x, y, p, q):
        return x * p + 100 * y + 10000 * q

    @njit
    def f12(x, y, p, q):
        v = np.empty_like(x)
        for j in range(x.shape[1]):
            s = 0.0
            for i in range(x.shape[0]):
                s += x[i, j]
                v[i, j] = s + 10 * p - y[0, j]
        return x * p + 100 * y + 10000 * q, v

    @njit
    def g11(x, y, p):
        return f11(x, y, p, 0)

    @njit
    def g12(x, y, p):
        return f12(x, y, p, 0)
    NUMBA.update({(0, 1, 2): f11, (0, 2, 2): f12, (0, 1, 1): g11, (0, 2, 1): g12})

    def fill(given, no, npar):
        k = 1.0 if given else 0.0
        core = f11 if no == 1 else f12
        if npar == 2:
            @njit
            def f(x, y, a, p, q):
                for i in range(x.shape[0]):
                    for j in range(x.shape[1]):
                        a[i, j] = (a[i, j] if k > 0 else 0.0) + p + x[i, j]
                return core(x, y, p, q)
        else:
            @njit
            def f(x, y, a, p):
                for i in range(x.shape[0]):
                    for j in range(x.shape[1]):
                        a[i, j] = (a[i, j] if k > 0 else 0.0) + p + x[i, j]
                return core(x, y, p, 0)
        return f
    NUMBA["fill"] = fill


def plan(g, uniq):
    """A configuration of the specification as a Toy: everything given by position, nothing fancy."""
    n = len(g["ps"])
    g = {**g, "ps": [{**p, "mixed": "", "kind": "int"} for p in g["ps"]]}
    h = {"how": "apply", "outs": 2, "short": "my", "prepend": True, "settings": [{} for _ in range(n)], "defaults": {}, "hide": None, "hide2": [p["n"] for p in g["ps"] if p["hide"]], "kwargs": False,
         "packed": False, "aslists": False, "to2d": True, "keeppd": False, "pass": [[v["w"][0] for v in p["vals"]] for p in g["ps"]], "ref": [None] * n, "unique": uniq, "cachekw": False, "raw": False, "noin": "",
         "seed": False, "loop": False, "shorts": None}
    return Toy(g, h)


def select(t, i, s):
    """One selection of the specification on a real indicator."""
    if s["how"] == "place":
        n = i.wrapper.shape_2d[1]
        return i.iloc[[1], list(range(n - 1, 0, -1))]
    keys = [tuple(int(v) for v in k) for k in s["keys"]]
    if len(s["ps"]) == 2:
        return i.tuple_loc[keys[0] if s["single"] else keys]
    loc = getattr(i, t.names[s["ps"][0] - 1] + "_loc")
    return loc[keys[0][0] if s["single"] else [k[0] for k in keys]]


W, B, F = [1, 2, 3, 4, 5, 7], [False, True], [0.05, 0.1, 0.25, 0.5]
# short name, inputs, parameters with the values to try; those after | have defaults
LIB = {"MA": "ma c window:W|ewm:B", "MSTD": "mstd c window:W|ewm:B", "BBANDS": "bb c |window:W ewm:B alpha:G", "RSI": "rsi c |window:W ewm:B", "STOCH": "stoch h,l,c |k_window:W d_window:W d_ewm:B",
       "MACD": "macd c |fast_window:W slow_window:W signal_window:W macd_ewm:B signal_ewm:B", "ATR": "atr h,l,c |window:W ewm:B", "OBV": "obv c,v ", "FMEAN": "fmean c window:W|ewm:B", "FSTD": "fstd c window:W|ewm:B",
       "FMIN": "fmin c window:W", "FMAX": "fmax c window:W", "FIXLB": "fixlb c n:W", "MEANLB": "meanlb c window:W|ewm:B", "LEXLB": "lexlb c pos_th:F neg_th:F", "TRENDLB": "trendlb c pos_th:F neg_th:F|mode:M",
       "BOLB": "bolb c window:W|pos_th:F neg_th:F", "STX": "stx e,c stop:F|trailing:B", "OHLCSTX": "ohlcstx e,o,h,l,c |sl_stop:F sl_trail:B tp_stop:F reverse:B", "STCX": "stcx e,c stop:F|trailing:B",
       "OHLCSTCX": "ohlcstcx e,o,h,l,c |sl_stop:F sl_trail:B tp_stop:F", "talib:SMA": "sma c |timeperiod:T", "talib:BBANDS": "bbands c |timeperiod:T nbdevup:G nbdevdn:G", "talib:MACD": "macd c |fastperiod:T slowperiod:T signalperiod:W",
       "talib:ATR": "atr h,l,c |timeperiod:T", "ta:SMAIndicator": "smaindicator c window:T|fillna:B", "ta:StochasticOscillator": "stochasticoscillator h,l,c |window:T smooth_window:T fillna:B"}
POOL = {"W": W, "B": B, "F": F, "G": [0.5, 1.5, 2.0], "T": [2, 3, 4, 5], "M": [0, 1, 2]}
BUILT = {}


def lib(name):
    if name not in BUILT:
        BUILT[name] = vbt.IndicatorFactory.from_talib(name[6:]) if name.startswith("talib:") else vbt.IndicatorFactory.from_ta(name[3:]) if name.startswith("ta:") else getattr(vbt, name)
    return BUILT[name]


def fields(name):
    short, ins, ps = LIB[name].split(" ", 2)
    a, _, b = ps.partition("|")
    return short, ins.split(","), [tuple(q.split(":")) + (False,) for q in a.split()] + [tuple(q.split(":")) + (True,) for q in b.split()]


def outs(i):
    """Every output, column by column, as text."""
    cols = []
    for n in i.in_output_names + i.output_names:
        a = np.asarray(getattr(i, n))
        cols.append((a[:, None] if a.ndim == 1 else a).astype(float))
    return [[[num(v) for v in a[:, j]] for a in cols] for j in range(cols[0].shape[1])]


def each(rng, names=None):
    """A library indicator over many values and columns, and each combination on each column alone."""
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    name = c(*(names or LIB))
    cls = lib(name)
    short, need, params = fields(name)
    R, C = int(rng.integers(6, 14)), int(rng.integers(1, 4))
    close = 10 * np.cumprod(1 + rng.normal(0, 0.12, (R, C)).clip(-0.5), axis=0).round(3)
    low, high = close * (1 - rng.random((R, C)) * 0.1), close * (1 + rng.random((R, C)) * 0.1)
    if c(0, 0, 1) and not name.startswith("ta") and name != "ATR":
        close = np.where(rng.random((R, C)) < 0.1, np.nan, close)
    data = {"c": close, "l": low, "h": high, "o": low + (high - low) * rng.random((R, C)), "v": rng.integers(0, 99, (R, C)).astype(float), "e": rng.random((R, C)) < 0.3}
    cx = [{"n": c("", "k"), "v": [str(z) for z in rng.permutation(list("abc"))[:C]]}]
    frame = {"k": "fr", "r": R, "c": C, "v": [0] * (R * C), "ix": plain(R), "cx": cx}
    ins, args, one = [], [], {}
    for n, q in enumerate(need):
        a = data[q]
        if n and c(0, 0, 0, 1):
            a = np.repeat(a[:, :1], C, axis=1)
            ins.append(pd.Series(a[:, 0], name="a"))
            args.append({**frame, "k": "sr", "c": 1, "v": [0] * R, "cx": [{"n": "", "v": ["a"]}]})
        else:
            ins.append(pd.DataFrame(a, columns=index(cx)))
            args.append(frame)
        one[q] = a
    percol = c(0, 0, 0, 1) and len(params) > 0
    prod = not percol and c(False, False, True)
    n = C if percol else c(1, 2, 3)
    kw, ps = {}, []
    for nm, pool, dflt in params:
        pool = POOL[pool]
        if dflt and c(0, 1):
            continue
        k = n if c(0, 0, 1) else 1
        if prod and not percol:
            k = c(1, 1, 2)
        k = min(k, len(pool))
        if k != n and not (prod and not percol):
            k = 1
        vals = [pool[int(z)] for z in rng.permutation(len(pool))[:k]]
        kw[nm] = vals if len(vals) > 1 or c(0, 1) else vals[0]
        ps.append((nm, vals))
    text = lambda v: unindex(pd.Index([v]))[0]["v"][0]
    hide, given = [], dict(ps)
    if ps and c(0, 0, 1):
        hide = [p[0] for p in ps if c(0, 1)]
    spec_ps = []
    for nm, _, dflt in params:
        vals = given.get(nm)
        spec_ps.append({"n": nm, "vals": [{"l": "-", "k": "s", "w": [0]}] if vals is None else [{"l": text(v), "k": "s", "w": [z]} for z, v in enumerate(vals)], "hide": nm in hide, "dflt": vals is None, "pc": False})
    g = {"args": args, "ino": [], "ps": spec_ps, "pre": short + "_", "prod": bool(prod), "percol": bool(percol), "hd": True, "o": {"dup": True, "keep": "last", "red": True}, "cached": False, "passcol": False,
         "shape": False, "flex": False, "arg": 0}
    opts = dict(param_product=bool(prod), hide_params=hide)
    i = cls.run(*ins, **kw, per_column=bool(percol), run_unique=c(True, False), **opts)
    got = {"op": "each", "name": name, "g": g, "cx": unindex(i.wrapper.columns), "got": outs(i), "combs": []}
    if ps and not percol and c(0, 1):
        small = {k: v for k, v in kw.items()}
        for j in cls.run_combs(*ins, **small, r=2, run_unique=c(True, False), **{**opts, "hide_params": list(hide)}):
            key = []
            for x in range(len(getattr(j, params[0][0] + "_list"))):
                k = []
                for nm, _, dflt in params:
                    v = np.asarray(getattr(j, nm + "_list")[x]).ravel()[0]
                    k.append(given[nm].index(v) + 1 if nm in given else 1)
                key.append(k)
            got["combs"].append({"cs": key, "got": outs(j)})
    tab = []
    keys = itertools.product(*[range(len(p["vals"])) for p in spec_ps])
    for key in keys:
        kw1 = {nm: given[nm][key[u]] for u, (nm, _, _) in enumerate(params) if nm in given}
        for j in range(C):
            s = [pd.Series(one[q][:, j]) for q in need]
            tab.append({"key": [z + 1 for z in key], "j": j + 1, "outs": outs(cls.run(*s, **kw1))[0]})
    got["tab"] = tab
    return {"ops": [got]}
