"""Classes with cached attributes, driven by the operations of spec/Cache.tla."""
import vectorbt as vbt
from vectorbt.utils.config import Configured
from vectorbt.utils.decorators import cached_property, cached_method, CacheCondition

CALLS = []


def body(self, fid, arg=None):
    CALLS.append((self.tag, fid, repr(arg)))
    return (self.tag, fid, arg, len(CALLS))


class A(Configured):
    def __init__(self, **kw):
        Configured.__init__(self, **kw)
        self.tag = "?"

    @cached_property(x=0, y=0)
    def f(self):
        return body(self, "A.f")

    @cached_property
    def g(self):
        return body(self, "A.g")

    @cached_method(x=0, maxsize=2)
    def m(self, u, w=0):
        return body(self, "A.m", u)

    @cached_method(typed=True, y=1)
    def p(self, u, w=0):
        return body(self, "A.p", u)

    @property
    def writeable_attrs(self):
        return set()


class B(A):
    @cached_property(y=0, z=0)
    def f(self):
        return body(self, "B.f")

    @cached_method(x=1, maxsize=1)
    def m(self, u, w=0):
        return body(self, "B.m", u)


CLS = {"A": A, "B": B}


class World:
    def __init__(self, style=0):
        CALLS.clear()
        self.caching = vbt.settings.caching
        self.caching["enabled"] = True
        self.caching["whitelist"].clear()
        self.caching["blacklist"].clear()
        self.objs, self.style = {}, style
        for t, c in (("a1", "A"), ("a2", "A"), ("b1", "B")):
            self.new(t, CLS[c](k=1))

    def new(self, tag, obj):
        obj.tag = tag
        self.objs[tag] = obj

    def cond(self, c):
        """A condition; functions and classes given by themselves or by name in turn."""
        self.style += 1
        by = self.style % 2 == 0
        kw = {}
        if c["inst"]:
            kw["instance"] = self.objs[c["inst"]]
        if c["func"]:
            kw["func"] = getattr(CLS[c["func"][0]], c["func"][2:]) if "." in c["func"] else c["func"]
        if c["cls"]:
            kw["cls"] = c["cls"] if by else CLS[c["cls"]]
        if c["base"]:
            kw["base_cls"] = c["base"] if by else CLS[c["base"]]
        if c["flags"]:
            kw["flags"] = {k: v for k, v in c["flags"]}
        if c["rank"] >= 0:
            kw["rank"] = c["rank"]
        return CacheCondition(**kw)

    def do(self, o):
        """The operation; for a call the value got, whether it is the caller's own, and the number of calls so far."""
        p = o["op"]
        if p == "call":
            x = self.objs[o["obj"]]
            if o["name"] in ("f", "g"):
                v = getattr(x, o["name"])
                arg = None
            else:
                a = o["arg"]
                arg = {"int": int, "float": float, "list": lambda y: [y]}[a["t"]](a["v"])
                v = getattr(x, o["name"])(arg, 0)
            fid = next(k.__name__ + "." + o["name"] for k in type(x).__mro__ if o["name"] in k.__dict__)
            own = v[0] == o["obj"] and v[1] == fid and v[2] == arg and (o["name"] != "p" or type(v[2]) == type(arg))
            return v[3], own, len(CALLS)
        if p == "clear":
            x = self.objs[o["obj"]]
            getattr(type(x), o["name"]).clear_cache(x)
        elif p == "enabled":
            self.caching["enabled"] = o["on"]
        elif p in ("white", "black"):
            self.caching[p + "list"].append(self.cond(o["cond"]))
        elif p in ("unwhite", "unblack"):
            del self.caching[p[2:] + "list"][o["j"] - 1]
        elif p == "new":
            self.new(o["obj"], self.objs[o["of"]].copy() if o.get("of") else CLS[o["cls"]](k=1))


def history(rng):
    w = World(int(rng.integers(2)))
    ops, nw, nb = [], 0, 0
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    for _ in range(int(rng.integers(10, 45))):
        u = rng.random()
        tags = list(w.objs)
        if u < 0.72:
            o = {"op": "call", "obj": c(*tags), "name": c("f", "g", "m", "m", "p"), "arg": {"t": c("int", "int", "float", "list"), "v": c(1, 2, 3)}}
        elif u < 0.78:
            o = {"op": "clear", "obj": c(*tags), "name": c("f", "g", "m", "p")}
        elif u < 0.82:
            o = {"op": "enabled", "on": bool(rng.random() < 0.6)}
        elif u < 0.93:
            cd = {"inst": c("", "", *tags), "func": c("", "", "f", "m", "g", "A.f", "B.f", "A.m", "B.m", "A.p"), "cls": c("", "", "A", "B"), "base": c("", "", "A", "B"),
                  "flags": c([], [], [["x", 0]], [["y", 0]], [["x", 0], ["y", 0]], [["x", 1]], [["y", 1]]), "rank": c(-1, -1, -1, 0, 3, 11)}
            k = c("white", "black")
            o = {"op": k, "cond": cd}
            nw, nb = nw + (k == "white"), nb + (k == "black")
        elif u < 0.96:
            if nw and rng.random() < 0.5:
                o, nw = {"op": "unwhite", "j": int(rng.integers(1, nw + 1))}, nw - 1
            elif nb:
                o, nb = {"op": "unblack", "j": int(rng.integers(1, nb + 1))}, nb - 1
            else:
                continue
        else:
            of = c("", *tags)
            cls = type(w.objs[of]).__name__ if of else c("A", "B")
            o = {"op": "new", "obj": "o%d" % len(ops), "cls": cls, "of": of}
        r = w.do(o)
        if r:
            o["got"], o["own"], o["calls"] = r
        ops.append(o)
    return {"ops": ops}
