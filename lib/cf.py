"""Configurations of the real library driven by the operations of spec/Conf.tla and read back as canonical heaps."""
import copy, os
from vectorbt.utils.checks import is_deep_equal
from vectorbt.utils.config import Config, atomic_dict, copy_dict, merge_dicts, convert_to_dict

KEYS = ["a", "b", "c", "d", "e", "0", "1"]


def lit(t):
    if t["k"] == "int":
        return t["v"]
    vals = [(k, lit(v)) for k, v in t["items"]]
    if t["k"] == "list":
        return [v for _, v in vals]
    return (atomic_dict if t["k"] == "atomic" else dict)(vals)


def kind(x):
    return "config" if isinstance(x, Config) else "atomic" if isinstance(x, atomic_dict) else "dict" if isinstance(x, dict) else "list"


def items(x):
    if isinstance(x, list):
        return [(str(i), v) for i, v in enumerate(x)]
    return [(k, dict.__getitem__(x, k)) for k in KEYS if dict.__contains__(x, k)]


def flags(c):
    return {"frozen": c.frozen_keys_, "ro": c.readonly_, "nested": c.nested_, "conv": bool(c.convert_dicts_), "attrs": c.as_attrs_,
            "cm": c.copy_kwargs_["copy_mode"], "cn": c.copy_kwargs_["nested"], "rm": c.reset_dct_copy_kwargs_["copy_mode"], "rn": c.reset_dct_copy_kwargs_["nested"]}


def canon(roots):
    seen, order = {}, []

    def visit(x):
        if not isinstance(x, (dict, list)) or id(x) in seen:
            return
        seen[id(x)] = len(order) + 1
        order.append(x)
        for _, v in items(x):
            visit(v)
        if isinstance(x, Config):
            visit(x.reset_dct_)
    for r in roots:
        visit(r)
    nm = lambda x: seen[id(x)] if isinstance(x, (dict, list)) else -int(x)
    heap = [{"k": kind(x), "f": flags(x) if isinstance(x, Config) else [], "reset": seen[id(x.reset_dct_)] if isinstance(x, Config) else 0,
             "items": [[k, nm(v)] for k, v in items(x)]} for x in order]
    return {"roots": [nm(r) for r in roots], "heap": heap}


def attrs_ok(roots):
    """With attribute access, the attributes of a config are exactly its items."""
    seen = set()
    for r in roots:
        if isinstance(r, Config) and r.as_attrs_:
            if {k: id(v) for k, v in r.__dict__.items() if not k.endswith("_")} != {k: id(v) for k, v in dict.items(r)}:
                return False
    return True


def yn(x):
    return None if x == "none" else x == "yes"


def args(a):
    kw = {}
    for k, n in (("frozen", "frozen_keys"), ("ro", "readonly"), ("nested", "nested"), ("conv", "convert_dicts"), ("attrs", "as_attrs")):
        if a[k] != "none":
            kw[n] = a[k] == "yes"
    for n, m, x in (("copy_kwargs", "cm", "cn"), ("reset_dct_copy_kwargs", "rm", "rn")):
        d = {}
        if a[m] != "none":
            d["copy_mode"] = a[m]
        if a[x] != "none":
            d["nested"] = a[x] == "yes"
        if d:
            kw[n] = d
    return kw


def apply(roots, o, scratch="/tmp"):
    """The operation on the real objects: (new root or nothing, error)."""
    x, p = roots[o["x"] - 1], o["op"]
    force = {"force": True} if o.get("force") else {}
    v = lit(o["lit"]) if "lit" in o else None
    new = []
    try:
        if p == "put":
            if isinstance(x, Config) and force:
                x.__setitem__(o["key"], v, force=True)
            elif isinstance(x, Config) and x.as_attrs_ and o.get("dot"):
                setattr(x, o["key"], v)
            else:
                x[o["key"]] = v
        elif p == "del":
            if isinstance(x, Config) and force:
                x.__delitem__(o["key"], force=True)
            elif isinstance(x, Config) and x.as_attrs_ and o.get("dot"):
                delattr(x, o["key"])
            else:
                del x[o["key"]]
        elif p == "popd":
            x.pop(o["key"], None, **force)
        elif p == "popitem":
            x.popitem(**force)
        elif p == "clear":
            x.clear(**force)
        elif p == "update":
            n = yn(o["nested"])
            x.update(v, **({} if n is None else {"nested": n}), **force)
        elif p == "ior":
            x |= v
        elif p == "setdefault":
            x.setdefault(o["key"], v)
        elif p == "reset":
            x.reset(**force)
        elif p == "checkpoint":
            x.make_checkpoint(**force)
        elif p == "copy":
            kw = {}
            if o["mode"] != "none":
                kw["copy_mode"] = o["mode"]
            if o["nested"] != "none":
                kw["nested"] = o["nested"] == "yes"
            if o["rmode"] != "none":
                kw["reset_dct_copy_kwargs"] = dict(copy_mode=o["rmode"])
            new = [x.copy(**kw)]
        elif p == "copy1":
            new = [copy.copy(x)]
        elif p == "deepcopy":
            new = [copy.deepcopy(x)]
        elif p == "copydict":
            new = [copy_dict(x, o["mode"], nested=o["nested"] == "yes")]
        elif p == "todict":
            new = [convert_to_dict(x, nested=o["nested"] == "yes")]
        elif p == "reload":
            new = [Config.loads(x.dumps())]
        elif p == "loadupdate":
            f = os.path.join(scratch, "cfg")
            roots[o["y"] - 1].save(f)
            x.load_update(f)
        elif p in ("merge", "merge2"):
            ds = [x, v] + ([roots[o["y"] - 1]] if p == "merge2" else [])
            new = [merge_dicts(*ds, to_dict=o["todict"], copy_mode=o["mode"], nested=o["nested"] == "yes", same_keys=o["same"])]
        elif p == "new":
            new = [Config(x, **args(o["args"]))]
        elif p == "newlit":
            r = lit(o["rlit"])
            new = [Config(v, reset_dct=r if isinstance(r, dict) else None, **args(o["args"]))]
        elif p == "touch":
            n = x
            for k in o["path"][:-1]:
                n = n[int(k)] if isinstance(n, list) else dict.__getitem__(n, k)
            k = o["path"][-1]
            n[int(k) if isinstance(n, list) else k] = 9
    except (TypeError, KeyError, ValueError) as e:
        return [], type(e).__name__
    return new, ""


def norm(c):
    """A canonical heap as emitted by TLC, comparable with canon()."""
    return {"roots": c["roots"], "heap": [{"k": n["k"], "f": n["f"] or [], "reset": n["reset"], "items": n["items"] or []} for n in c["heap"]]}


# ------------------------------------------------------------------ random programs
def rlit(rng, depth=0, kinds=("dict", "dict", "atomic")):
    u = rng.random()
    if depth and u < 0.35:
        return {"k": "int", "v": int(rng.integers(0, 9)), "items": []}
    if depth and u < 0.55:
        return {"k": "list", "v": 0, "items": [[str(i), {"k": "int", "v": int(rng.integers(0, 9)), "items": []}] for i in range(rng.integers(0, 3))]}
    ks = [k for k in KEYS[:5] if rng.random() < (0.5 if depth < 2 else 0.2)]
    rng.shuffle(ks)
    return {"k": str(rng.choice(kinds)), "v": 0, "items": [[str(k), rlit(rng, depth + 1)] for k in ks] if depth < 3 else []}


def rargs(rng):
    c = lambda *xs: str(rng.choice(xs))
    a = {k: c("none", "none", "no", "yes") for k in ("frozen", "ro", "nested", "conv", "attrs", "cn", "rn")}
    a["cm"], a["rm"] = c("none", "shallow", "hybrid", "deep"), c("none", "shallow", "hybrid", "deep")
    if rng.random() < 0.6:
        a["ro"] = "no"
    if rng.random() < 0.5:
        a["frozen"] = "no"
    if a["conv"] == "yes":
        a["nested"] = "yes" if rng.random() < 0.9 else a["nested"]
    if a["conv"] != "yes":
        a["conv"] = "no"
    return a


def rprogram(rng, scratch):
    """A random program run on the real objects; the recorded case."""
    roots = [lit({"k": "dict", "v": 0, "items": []})]
    ops, outs = [], []
    for _ in range(int(rng.integers(3, 12))):
        c = lambda *xs: str(rng.choice(xs))
        cfgs = [i + 1 for i, r in enumerate(roots) if isinstance(r, Config)]
        dicts = [i + 1 for i, r in enumerate(roots) if isinstance(r, dict)]
        force = bool(rng.random() < 0.3)
        top = lambda: rlit(rng, 0, ("dict",))
        if not cfgs or rng.random() < 0.12:
            o = {"op": "newlit", "x": 1, "lit": rlit(rng), "rlit": top() if rng.random() < 0.3 else {"k": "int", "v": 0, "items": []}, "args": rargs(rng)}
        else:
            x = int(rng.choice(cfgs))
            p = c("put", "put", "del", "popd", "popitem", "clear", "update", "update", "update", "ior", "setdefault", "reset", "checkpoint", "copy",
                  "copy1", "deepcopy", "copydict", "todict", "reload", "loadupdate", "merge", "merge", "merge2", "new", "touch", "touch", "touch", "touch")
            o = {"op": p, "x": x}
            if p in ("put", "del", "popd", "setdefault"):
                o["key"] = c(*KEYS[:5])
                if p == "put" or p == "setdefault":
                    o["lit"] = rlit(rng, 1)
            if p in ("put", "del", "popd", "popitem", "clear", "update", "reset", "checkpoint"):
                o["force"] = force
            if p in ("put", "del"):
                o["dot"] = bool(rng.random() < 0.5)
            if p in ("update", "ior"):
                o["lit"] = top()
            if p == "update":
                o["nested"] = c("none", "no", "yes")
            if p == "copy":
                o.update(mode=c("none", "shallow", "hybrid", "deep"), nested=c("none", "no", "yes"), rmode=c("none", "none", "shallow", "hybrid", "deep"))
            if p in ("copydict", "todict", "merge", "merge2"):
                o["x"] = int(rng.choice(dicts))
                o["nested"] = c("no", "yes")
            if p == "copydict":
                o["mode"] = c("shallow", "hybrid", "deep")
            if p in ("merge", "merge2"):
                o.update(lit=rlit(rng), todict=bool(rng.random() < 0.7), mode=c("shallow", "hybrid", "deep"), same=bool(rng.random() < 0.25))
            if p == "merge2":
                o["y"] = int(rng.choice(dicts))
            if p == "loadupdate":
                o["y"] = int(rng.choice(cfgs))
            if p == "new":
                o["args"] = rargs(rng)
            if p == "touch":
                o["x"] = int(rng.choice(dicts))
                n, path = roots[o["x"] - 1], []
                while True:
                    its = items(n)
                    if not its:
                        break
                    k, v = its[int(rng.integers(len(its)))]
                    path.append(k)
                    if not isinstance(v, (dict, list)) or (rng.random() < 0.25 and not isinstance(n, Config)):
                        break
                    n = v
                if not its or isinstance(n, Config):
                    continue
                o["path"] = path
        new, err = apply(roots, o, scratch)
        roots = roots + new
        ops.append(o)
        outs.append({"err": err, "c": canon(roots), "attrs": attrs_ok(roots), "alike": [], "equal": []})
        if rng.random() < 0.5:
            outs[-1]["alike"] = [[bool(is_deep_equal(x, y)) for y in roots] for x in roots]
            outs[-1]["equal"] = [[bool(x == y) if isinstance(x, Config) else False for y in roots] for x in roots]
        if len(roots) > 6:
            break
    return {"ops": ops, "outs": outs}
