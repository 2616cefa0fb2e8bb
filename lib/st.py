"""Tables of statistics of real objects against Stats.tla."""
import warnings
import numpy as np, pandas as pd
import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.generic.stats_builder import StatsBuilderMixin
from vectorbt.utils.config import Config
from vectorbt.utils.template import Sub, Rep, RepEval, RepFunc, deep_substitute
from vectorbt.utils.tags import match_tags

NAMES = ["self", "a", "b", "c", "d", "p", "q", "x", "y", "group_by", "column", "metric_name", "agg_func", "silence_warnings", "to_timedelta", "freq", "alpha", "beta", "gamma", "delta", "wrap_kwargs"]


def freq(f):
    return "None" if f is None else "%dD" % pd.Timedelta(f if not isinstance(f, str) else pd.Timedelta(f)).days


def show(v):
    if isinstance(v, Toy):
        return "S@" + freq(v.wrapper.freq)
    if isinstance(v, (np.timedelta64, pd.Timedelta)):
        return "td%d" % pd.Timedelta(v).days
    if isinstance(v, dict):
        return "{" + ",".join("%s=%s" % (k, show(v[k])) for k in ("to_timedelta", "silence_warnings")) + "}"
    if isinstance(v, (list, pd.Index)):
        return "[" + ";".join(v) + "]"
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return str(int(v))
    if isinstance(v, float) and v == int(v):
        return str(int(v))
    if callable(v):
        return v.__name__
    return str(v)


def term(head, names, m):
    f = lambda n: freq(m[n]) if n == "freq" else show(m[n])
    return head + "{" + ",".join("%s=%s" % (n, f(n) if n in m else "-") for n in names) + "}"


CASE = {}


def per_unit(s):
    return s if CASE["flat"] else pd.Series([s + "/" + u for u in CASE["units"]], index=CASE["units"])


class Child:
    def __init__(self, s):
        self.s = s

    @property
    def val(self):
        return self.s + ".val"

    def meth(self, c="-", group_by="-", d="-", beta="-"):
        return term(self.s + ".meth", ["c", "group_by", "d", "beta"], dict(c=c, group_by=group_by, d=d, beta=beta))

    def rows(self, c="-"):
        return per_unit(term(self.s + ".rows", ["c"], dict(c=c)))


class Toy(Wrapping, StatsBuilderMixin):
    def __init__(self, wrapper, **kwargs):
        Wrapping.__init__(self, wrapper, **kwargs)
        StatsBuilderMixin.__init__(self)

    @property
    def f(self):
        return "@" + freq(self.wrapper.freq)

    @property
    def alpha(self):
        return "alpha" + self.f

    def get_beta(self, a="-", group_by="-"):
        return term("beta" + self.f, ["a", "group_by"], dict(a=a, group_by=group_by))

    @property
    def beta(self):
        return self.get_beta()

    def gamma(self, x="-", y="-", b="-"):
        return term("gamma" + self.f, ["x", "y", "b"], dict(x=x, y=y, b=b))

    def delta(self, metric_name="-"):
        return term("delta" + self.f, ["metric_name"], dict(metric_name=metric_name))

    @property
    def child(self):
        return Child("child" + self.f)

    def get_node(self, a="-", group_by="-"):
        return Child(term("node" + self.f, ["a", "group_by"], dict(a=a, group_by=group_by)))

    @property
    def node(self):
        return self.get_node()

    def zeta(self, b="-", group_by="-"):
        return per_unit(term("zeta" + self.f, ["b", "group_by"], dict(b=b, group_by=group_by)))


def joinA(sr):
    return "joinA[" + "|".join(show(x) for x in sr.tolist()) + "]"


def joinB(sr):
    return "joinB[" + "|".join(show(x) for x in sr.tolist()) + "]"


def post(self, out, settings):
    f = lambda x: x.map(lambda y: "post(%s)" % y) if isinstance(x, pd.Series) else "post(%s)" % x
    return {k: f(v) for k, v in out.items()} if isinstance(out, dict) else f(out)


FUNCS = {"joinA": joinA, "joinB": joinB, "post": post}


def value(v):
    t = v["t"]
    if t == "v":
        return v["s"]
    if t == "i":
        return v["n"]
    if t == "b":
        return {"None": None, "True": True, "False": False}[v["s"]]
    if t == "f":
        return FUNCS[v["s"]]
    if t == "l":
        return list(v["ks"])
    if t == "d":
        return {i["p"] + i["k"]: value(i["v"]) for i in v["d"]}
    if t == "rep":
        return Rep(v["s"])
    if t == "sub":
        return Sub("".join(p["k"] if p["p"] == "lit" else "${%s}" % p["k"] for p in v["d"]))
    if t == "eval":
        return RepEval(" + '+' + ".join(v["ks"]))
    if t == "fn":
        ns = ", ".join(v["ks"])
        return RepFunc(eval("lambda %s: 'fn(' + ','.join(str(z) for z in [%s]) + ')'" % (ns, ns)))


def items(ms):
    return {i["p"] + i["k"]: value(i["v"]) for i in ms}


def outcome(out, s):
    if out == "scalar":
        return s
    if out == "series":
        return per_unit(s)
    if out == "dict":
        return {"k1": s, "k2": per_unit(s)}
    if out == "array":
        return np.array([1, 2])
    if out == "num" or CASE["flat"]:
        return 5
    return pd.Series([6 + u for u in range(len(CASE["units"]))], index=CASE["units"])


def calc(c):
    if c["kind"] == "raw":
        return lambda self, settings: outcome(c["out"], term("R@" + freq(self.wrapper.freq), ["a", "metric_name"], settings))
    if c["kind"] == "func":
        sig = ", ".join([n for n in c["names"] if n in c["req"]] + ["%s=MISSING" % n for n in c["names"] if n not in c["req"]] + (["**kw"] if c["var"] else []))
        got = "{%s}" % ", ".join("%r: %s" % (n, n) for n in c["names"])

        def call(m, kw):
            m = {**{k: v for k, v in m.items() if v is not MISSING}, **kw}
            return outcome(c["out"], term("F", [n for n in NAMES if n in c["names"] or n in m], m))
        return eval("lambda %s: call(%s, %s)" % (sig, got, "kw" if c["var"] else "{}"), {"call": call, "MISSING": MISSING})
    els = []
    for e in c["path"]:
        els.append({"str": e["attr"], "t1": (e["attr"],), "t2": (e["attr"], tuple(e["args"])), "t3": (e["attr"], tuple(e["args"]), {k: v for k, v in e["kw"]})}[e["form"]])
    if c["dotted"] and all(isinstance(e, str) for e in els):
        return ".".join(els)
    return els


MISSING = object()


def definition(d):
    m = items(d["items"])
    m["calc_func"] = calc(d["calc"])
    return m


def tag(x):
    if x["op"] == "id":
        return x["id"]
    if x["op"] == "not":
        return "not (%s)" % tag(x["a"][0])
    return (" %s " % x["op"]).join("(%s)" % tag(y) for y in x["a"])


TEXTS = [("Changing the frequency", "copy"), ("No metrics", "none"), ("Object has multiple columns", "agg"), ("Couldn't parse the frequency", "freq")]


def token(s):
    for a, b in TEXTS:
        if s.startswith(a):
            return b
    if s.startswith("Duplicate metric title"):
        return "dup:" + s.split("'")[1]
    if "returned multiple values" in s:
        return "multi:" + s.split("'")[1]
    if "raised an exception" in s:
        return "raised:" + s.split("'")[1]
    return s


def snapshot(t):
    plain = lambda v: v if isinstance(v, (str, bool, type(None))) else [plain(x) for x in v] if isinstance(v, (list, tuple)) else type(v).__name__
    return [sorted((k, str(plain(v))) for k, v in d.items()) for d in t._metrics.values()]


def table(o, c):
    """The real call: what Table(o, c) is in the specification."""
    w = ArrayWrapper(pd.RangeIndex(3), pd.Index(o["cols"]), o["ndim"], freq=None if o["freq"] == "None" else o["freq"], group_by=pd.Index(o["grp"]) if o["grp"] else None)
    t = Toy(w)
    t._metrics = Config({d["name"]: definition(d) for d in c["own"]})
    by = c["by"]
    g = by[1:] if by[0] == "by" else o["grp"] if by[0] == "own" else []
    units = list(dict.fromkeys(g)) if g else list(o["cols"])
    CASE.update(flat=len(units) == 1 if g else o["ndim"] == 1, units=units)
    kw = {}
    if by[0] != "own":
        kw["group_by"] = by[1:] if by[0] == "by" else False
    if c["all"]:
        if c["form"] % 2:
            kw["metrics"] = "all"
    else:
        ms = [(m["name"], definition(m)) if m["inline"] else m["name"] for m in c["metrics"]]
        f = c["form"] % 4
        if f == 1 and len(ms) == 1:
            ms = ms[0]
        elif f == 2 and all(isinstance(m, tuple) for m in ms) and len(set(m[0] for m in ms)) == len(ms):
            ms = dict(ms)
        kw["metrics"] = ms
    if c["tags"]:
        ts = [tag(x) for x in c["tags"]]
        kw["tags"] = ts[0] if len(ts) == 1 and c["form"] % 2 else ts
    if c["column"]["s"] != "None":
        kw["column"] = value(c["column"])
    kw["agg_func"] = value(c["agg"])
    if c["silence"] != "none":
        kw["silence_warnings"] = c["silence"] == "yes"
    fs = {"grouped": lambda self, s: not self.wrapper.grouper.is_grouped(group_by=s["group_by"]), "freq": lambda self, s: self.wrapper.freq is not None, "a": lambda self, s: s.get("a") == "yes"}
    for k, m in (("template_mapping", items(c["tmap"])), ("settings", items(c["settings"])), ("metric_settings", items(c["msets"])),
                 ("filters", {f["k"]: {"filter_func": fs[f["f"]], "warning_message": value(f["warn"]), "inv_warning_message": value(f["inv"])} for f in c["filters"]})):
        if m:
            kw[k] = m
    got = {"e": "", "warns": [], "kind": "none", "name": "", "rows": []}
    out = None
    before = snapshot(t)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            out = t.stats(**kw)
        except (KeyError, ValueError, TypeError, NameError) as e:
            got["e"] = type(e).__name__
    got["warns"] = [token(str(x.message)) for x in ws if issubclass(x.category, UserWarning) and not issubclass(x.category, (DeprecationWarning, FutureWarning))]
    after = snapshot(t)
    if before != after:
        got["warns"].append("the metrics of the object were changed")
    if isinstance(out, pd.Series):
        got.update(kind="series", name=str(out.name), rows=[{"t": str(k), "v": [show(v)]} for k, v in zip(out.index, out.tolist())])
    elif isinstance(out, pd.DataFrame):
        if out.index.tolist() != CASE["units"]:
            got["warns"].append("labels %s" % out.index.tolist())
        got.update(kind="frame", rows=[{"t": str(k), "v": [show(v) for v in out.iloc[:, i].tolist()]} for i, k in enumerate(out.columns)])
    return got


def V(t, s, **kw):
    return {"t": t, "s": s, "ks": [], "d": [], **kw}


def It(k, v, p=""):
    return {"p": p, "k": k, "v": v}


def rcase(rng):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    ndim = c(1, 2, 2)
    cols = ["a1"] if ndim == 1 else ["a1", "b1", "c1"][:c(2, 3)]
    grp = [] if ndim == 1 or c(0, 0, 1) == 0 else ["g1", "g2", "g2"][:len(cols)]
    o = {"cols": cols, "ndim": ndim, "grp": grp, "freq": c("None", "1D", "1D", "2D")}
    by = ["own"] if ndim == 1 or c(0, 0, 1) == 0 else c(["no"], ["by"] + ["h1", c("h1", "h2"), "h2"][:len(cols)])
    text = lambda: V("v", c("yes", "no", "u", "w"))
    lit, key = (lambda s: {"p": "lit", "k": s}), (lambda s: {"p": "key", "k": s})

    def templ(late=False):
        ks = lambda: [c("p", "q", "metric_name") for _ in range(c(1, 2))]
        t = c("rep", "sub", "eval", "fn") if not late else c("rep", "eval")
        if t == "rep":
            return V("rep", c("p", "q", "metric_name"))
        if t == "sub":
            return V("sub", "", d=[lit("<"), key(c("p", "q", "metric_name")), lit(">")] + ([key("metric_name")] if c(0, 1) else []))
        return V(t, "", ks=list(dict.fromkeys(ks())))
    anyv = lambda: templ() if c(0, 0, 1) else text()
    flag = lambda: V("b", c("True", "False"))

    def some(passed=False):
        """Settings of a metric."""
        out = []
        add = lambda k, v, p="": out.append(It(k, v, p)) if p + k not in {i["p"] + i["k"] for i in out} else None
        for k in "abcd":
            if c(0, 0, 1 if not passed else 0, 0):
                add(k, anyv())
        if c(0, 0, 0, 1):
            add("title", V("v", c("T1", "T2")) if c(0, 1) else V("sub", "", d=[lit("T "), key("metric_name")]))
        if c(0, 1) and not passed:
            add("tags", V("v", c("t1", "t2")) if c(0, 1) else V("l", "", ks=[str(x) for x in rng.permutation(["t1", "t2", "t3"])[:c(1, 2)]]))
        for _ in range(c(0, 0, 1, 2)):
            add(c("a", "b", "group_by", "metric_name", "column", "self", "freq", "agg_func"), flag(), "pass_")
        for _ in range(c(0, 0, 1, 1)):
            add(c("alpha", "beta", "gamma", "delta", "c", "beta"), V("b", c("True", "True", "False")), "resolve_")
        if c(0, 0, 0, 0, 1):
            add(c("node", "child", "beta"), flag(), "resolve_path_")
        if c(0, 0, 0, 1) and not passed:
            f = c("is_not_grouped", "has_freq", "flag", "flag", "flag2")
            add(f, flag(), c("check_", "inv_check_", "check_"))
            if c(0, 0, 1):
                add(f, flag(), c("check_", "inv_check_"))
        if c(0, 0, 0, 0, 0, 1):
            add("use_caching", flag())
        if c(0, 0, 0, 0, 0, 1):
            add("fill_wrap_kwargs", flag())
        if c(0, 0, 0, 0, 1):
            add("silence_warnings", flag())
        if c(0, 0, 0, 0, 0, 1):
            add("freq", V("v", c("1D", "2D")))
        if c(0, 0, 0, 0, 0, 1):
            add("to_timedelta", flag())
        if c(0, 0, 0, 0, 1):
            add("agg_func", c(V("b", "None"), V("f", "joinB")))
        if c(0, 0, 0, 0, 0, 1):
            add("group_by_x", text()) if False else None
        if c(0, 0, 0, 0, 1):
            add("template_mapping", V("d", "", d=[It(c("p", "q"), text())]))
        return out

    def element(own, last):
        if own:
            attr = c("alpha", "beta", "gamma", "delta", "zeta") if last else c("node", "node", "child")
        else:
            attr = c("val", "meth", "meth", "rows")
        form = c("str", "str", "t1", "t2", "t3")
        e = {"attr": attr, "form": form, "args": [], "kw": []}
        if form in ("t2", "t3") and attr in ("gamma", "node", "beta", "meth", "rows") and c(0, 1):
            e["args"] = [c("1", "2") for _ in range(c(1, 2) if attr == "gamma" else 1)]
        if form == "t3" and c(0, 1):
            k = {"gamma": "b", "beta": "group_by", "node": "group_by", "meth": "d", "zeta": "b"}.get(attr)
            if k:
                e["kw"] = [[k, c("5", "6")]]
        return e

    def metric(name):
        its = some()
        kind = c("func", "func", "func", "path", "path", "raw")
        calc = {"kind": kind, "names": [], "req": [], "var": False, "out": c("scalar", "scalar", "series", "series", "dict", "num", "nums", "nums"), "path": [], "dotted": bool(c(0, 1))}
        if kind == "raw":
            its.append(It("resolve_calc_func", V("b", "False")))
        if kind == "func":
            pool = ["a", "b", "c", "d", "self", "group_by", "column", "metric_name", "agg_func", "silence_warnings", "to_timedelta", "freq", "alpha", "beta", "delta", "gamma"]
            calc["names"] = [str(x) for x in rng.permutation(pool)[:c(1, 2, 3, 4)]]
            calc["var"] = bool(c(1, 1, 1, 0))
            if not calc["var"]:
                have = {i["k"] for i in its if i["p"] == ""} & set("abcd")
                calc["names"] = list(dict.fromkeys(calc["names"] + sorted(have)))
            if c(0, 0, 0, 0, 0, 0, 0, 1):
                calc["req"] = [calc["names"][0]]
            if c(*[0] * 15, 1) and not any(i["k"] == "post_calc_func" for i in its):
                calc["out"] = "array"
        if kind == "path":
            n = c(1, 2, 2)
            calc["path"] = [element(z == 0, z == n - 1) for z in range(n)]
            last = calc["path"][-1]
            ok = {"meth": "cd", "rows": "c", "gamma": "b", "delta": "", "zeta": "b", "beta": "", "val": "abcd", "alpha": "abcd"}[last["attr"]]
            if last["form"] != "str":
                ok = "abcd"
            if c(*[1] * 12, 0):
                its = [i for i in its if i["p"] or i["k"] not in "abcd" or i["k"] in ok]
                its = [i for i in its if not (i["p"] == "" and i["k"] == "fill_wrap_kwargs")]
        if calc["out"] in ("num", "nums") and kind != "path" and c(0, 1):
            its.append(It("apply_to_timedelta", flag()))
        elif c(0, 0, 0, 1) and calc["out"] != "array" and (calc["out"] not in ("num", "nums") or kind == "path"):
            its.append(It("post_calc_func", V("f", "post")))
        if calc["out"] == "dict" and kind != "path" and c(0, 0, 1):
            its = [i for i in its if i["k"] != "title"] + [It("title", V("b", "None"))]
        return {"name": name, "inline": True, "calc": calc, "items": its}

    own = [metric(n) for n in ["m1", "m2", "m3", "m4"][:c(1, 2, 3, 4)]]
    call = {"own": own, "all": bool(c(0, 1)), "metrics": [], "form": int(rng.integers(8)), "by": by, "tags": [], "column": V("b", "None"), "agg": c(V("f", "joinA"), V("f", "joinA"), V("b", "None")),
            "silence": c("none", "none", "yes", "no"), "tmap": [], "settings": [], "msets": [], "filters": []}
    if not call["all"]:
        for _ in range(c(1, 2, 3)):
            call["metrics"].append({**c(*own), "inline": False} if c(0, 1, 1) else metric(c("m1", "n1", "n2")))
        if c(*[0] * 25, 1):
            call["metrics"].append({**own[0], "name": "zz", "inline": False})
    ident = lambda: {"op": "id", "id": c("t1", "t2", "t3"), "a": []}

    def expr(depth=0):
        if depth > 1 or c(0, 1):
            return ident()
        op = c("and", "or", "not")
        return {"op": op, "id": "", "a": [expr(depth + 1) for _ in range(1 if op == "not" else 2)]}
    if c(0, 0, 1):
        call["tags"] = [expr() for _ in range(c(1, 1, 2))]
    g = by[1:] if by[0] == "by" else grp if by[0] == "own" else []
    units = list(dict.fromkeys(g)) if g else cols
    if ndim == 2 and c(0, 1):
        call["column"] = V("v", c(*units)) if c(0, 0, 1) else V("i", "", n=int(rng.integers(len(units))))
        if call["column"]["t"] == "i":
            call["column"]["s"] = str(call["column"]["n"])
        if c(*[0] * 12, 1):
            call["column"] = V("v", "zz")
    for k in ("p", "q"):
        where = c("tmap", "settings", "settings", "both", "none") if c(0, 1) else "settings"
        if where in ("tmap", "both"):
            call["tmap"].append(It(k, text() if c(0, 0, 1) or k == "p" else V("sub", "", d=[lit("~"), key("p")])))
        if where in ("settings", "both"):
            call["settings"].append(It(k, text()))
    late = any(i["v"]["t"] == "sub" for i in call["tmap"])     # texts made of a template not yet replaced are not described
    for k in "ab":
        if c(0, 0, 1):
            call["settings"].append(It(k, text() if c(0, 0, 1) or any(i["k"] == k for m in own for i in m["items"]) else templ(late)))
    if c(0, 0, 0, 1):
        call["settings"].append(It("freq", V("v", c("1D", "2D"))))
    if c(0, 0, 0, 0, 1):
        call["settings"].append(It("to_timedelta", flag()))
    if c(0, 0, 1):
        n = c(*[m["name"] for m in (own if call["all"] else call["metrics"])]) if c(*[1] * 10, 0) else "other"
        call["msets"].append(It(n, V("d", "", d=some(True))))
    for f in ("flag", "flag2"):
        if f == "flag" or c(0, 0, 1):
            call["filters"].append({"p": "", "k": f, "f": "a", "warn": c(V("b", "None"), V("v", "W!"), V("sub", "", d=[lit("W "), key("metric_name")])), "inv": c(V("b", "None"), V("v", "I!"))})
    if c(0, 0, 0, 0, 1):
        call["filters"].append({"p": "", "k": "has_freq", "f": "freq", "warn": V("v", "F!"), "inv": V("v", "G!")})
    return {"o": o, "c": call, "got": table(o, call)}
