"""Generators of signals of the real library against SignalGen.tla."""
import numpy as np, pandas as pd
import vectorbt as vbt
from vb import num, nums
Acc = pd.DataFrame.vbt.signals


class Script:
    """A chooser that returns what a behaviour says and notes what it was asked."""
    def __init__(self, calls):
        self.calls, self.asked = calls, []

    def choose(self, side):
        def choice(from_i, to_i, col, *_):
            k = len(self.asked)
            self.asked.append([side, int(from_i), int(to_i)])
            return np.array(self.calls[k][3] if k < len(self.calls) else [], dtype=np.int64)
        return choice


def replay(t, n, how):
    """One behaviour of SignalGenMC through the accessors (or a factory indicator)."""
    o, s = t["o"], Script(t["calls"])
    got = {"err": False}
    try:
        if "wait" in o:
            mask = np.zeros(n, dtype=bool)
            mask[t["ws"]] = True
            kw = dict(wait=o["wait"], until_next=o["until"], skip_until_exit=o["skip"], pick_first=o["first"])
            if how == "factory":
                I = vbt.SignalFactory(mode="exits").from_choice_func(exit_choice_func=s.choose(0), exit_settings=dict())
                a = I.run(pd.Series(mask), **kw).exits
            else:
                a = pd.Series(mask).vbt.signals.generate_exits(s.choose(0), **kw)
            got["a"], got["b"] = [bool(v) for v in a.values], [False] * n
        else:
            kw = dict(entry_wait=o["ewait"], exit_wait=o["xwait"], entry_pick_first=o["efirst"], exit_pick_first=o["xfirst"])
            if how == "factory":
                I = vbt.SignalFactory(mode="both").from_choice_func(entry_choice_func=s.choose(0), exit_choice_func=s.choose(1), entry_kwargs=dict(wait=o["ewait"], pick_first=o["efirst"]), exit_kwargs=dict(wait=o["xwait"], pick_first=o["xfirst"]))
                r = I.run(n)
                a, b = r.entries, r.exits
            else:
                a, b = pd.Series.vbt.signals.generate_both(n, entry_choice_func=s.choose(0), exit_choice_func=s.choose(1), **kw)
            got["a"], got["b"] = [bool(v) for v in np.ravel(a)], [bool(v) for v in np.ravel(b)]
    except ValueError as e:
        if "out of bounds" not in str(e) and "Infinite loop" not in str(e):
            raise
        got["err"] = True
    got["asked"] = s.asked
    want = {"err": t["err"], "asked": [list(c[:3]) for c in t["calls"]]}
    if not t["err"]:
        want.update(a=t["a"], b=t["b"])
    return want, got


def col(x, j):
    return [v.item() for v in np.asarray(x).reshape(len(x), -1)[:, j]]


def flags(rng, n, w, p):
    return rng.random((n, w)) < p


def history(rng):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    n, w = int(rng.integers(3, 26)), int(rng.integers(1, 4))
    idx = pd.date_range("2024", periods=n)
    names = list("abc")[:w]
    ser = w == 1 and c(0, 1)
    F = lambda x: pd.Series(x[:, 0], index=idx) if ser else pd.DataFrame(x, index=idx, columns=names)
    shape = n if ser else (n, w)
    A = pd.Series.vbt.signals if ser else Acc
    en = F(flags(rng, n, w, c(0.1, 0.3, 0.6)))
    ops = []
    NO = [False] * n
    SEEN = lambda m: {"kind": "observed", "a": m, "first": True}
    FIRST = lambda m: {"kind": "first", "a": m, "first": True}
    PROB = lambda p, f: {"kind": "prob", "prob": nums(p), "first": f}
    for _ in range(6):
        kind = c("stop", "ohlc", "ohlc", "choose", "rand", "prob", "randex", "both", "probboth", "factory", "factory", "factory", "custom", "custom")
        until = bool(c(0, 1))
        o = {"wait": c(0, 1, 1, 2), "until": until, "skip": bool(c(0, 1)) and not until, "first": bool(c(0, 1, 1))}
        oc = {"ewait": c(0, 1, 1, 2), "xwait": c(1, 1, 2), "efirst": True, "xfirst": o["first"]}
        if kind == "stop" or (kind == "factory" and c(0, 0, 1)):
            ts = F(rng.integers(4, 13, (n, w)).astype(float))
            if c(0, 0, 1):
                ts[rng.random(ts.shape) < 0.1] = np.nan
            whole = [c(0.25, 0.5, -0.25, -0.5, 0.0, -0.125, np.nan) for _ in range(3)]
            many = [bool(c(0, 1)) for _ in range(3)]
            fact, chain = kind == "factory", bool(c(0, 1))
            if fact:
                kw = dict(stop=whole, trailing=many)
                if chain:
                    r = vbt.STCX.run(en, ts, **kw)
                    oc = {"ewait": 1, "xwait": 1, "efirst": True, "xfirst": True}
                    a, b = r.new_entries, r.exits
                else:
                    b = vbt.STX.run(en, ts, **kw, wait=o["wait"], until_next=o["until"], skip_until_exit=o["skip"], pick_first=o["first"]).exits
                sets = [(np.full((n, w), s), np.full((n, w), t)) for s, t in zip(whole, many)]
            else:
                stop, trail = (whole[0], many[0]) if c(0, 1) else (rng.choice([0.25, 0.5, -0.25, -0.5, np.nan], (n, w)), flags(rng, n, w, 0.5))
                sets = [(np.broadcast_to(stop, (n, w)), np.broadcast_to(trail, (n, w)))]
                D = lambda x: F(x) if np.ndim(x) else x
                kw = dict(trailing=D(trail), entry_wait=oc["ewait"], until_next=o["until"], skip_until_exit=o["skip"], pick_first=o["first"], chain=chain, exit_wait=oc["xwait"] if chain else o["wait"])
                r = en.vbt.signals.generate_stop_exits(ts, D(stop), **kw)
                a, b = r if chain else (None, r)
            for q, (s, t) in enumerate(sets):
                for j in range(w):
                    wait = oc["xwait"] if chain else o["wait"]
                    ch = {"kind": "stop", "wait": wait, "ts": nums(col(ts, j)), "stop": nums(s[:, j]), "trailing": [bool(v) for v in t[:, j]], "first": oc["xfirst"] if chain else o["first"]}
                    if chain:
                        ops.append({"op": "chain", "o": oc, "n": n, "ench": FIRST(col(en, j)), "ch": ch, "en": col(a, q * w + j), "ex": col(b, q * w + j), "priced": False})
                    else:
                        ops.append({"op": "exits", "o": o, "n": n, "en": col(en, j), "ch": ch, "out": col(b, q * w + j), "priced": False})
        elif kind == "ohlc" or (kind == "factory" and c(0, 1)):
            op = rng.integers(6, 13, (n, w)).astype(float)
            cl = rng.integers(6, 13, (n, w)).astype(float)
            hi = np.maximum(op, cl) + rng.integers(0, 4, (n, w))
            lo = np.minimum(op, cl) - rng.integers(0, 4, (n, w))
            if c(0, 0, 1):
                hi[rng.random(hi.shape) < 0.2] = np.nan
                lo[rng.random(lo.shape) < 0.2] = np.nan
            P = [F(x) for x in (op, hi, lo, cl)]
            safe, chain, fact = bool(c(0, 1)), bool(c(0, 0, 1)), kind == "factory"
            sl, tr, tp, rev = ([c(0.125, 0.25, 0.5, 0.0, np.nan) for _ in range(3)], [bool(c(0, 1)) for _ in range(3)], [c(0.125, 0.25, 0.5, np.nan) for _ in range(3)], [bool(c(0, 1)) for _ in range(3)])
            full = lambda v: np.full((n, w), v)
            if fact:
                kw = dict(sl_stop=sl, sl_trail=tr, tp_stop=tp, reverse=rev, is_open_safe=safe)
                if chain:
                    r = vbt.OHLCSTCX.run(en, *P, **kw)
                    oc = {"ewait": 1, "xwait": 1, "efirst": True, "xfirst": True}
                    a, b = r.new_entries, r.exits
                else:
                    r = vbt.OHLCSTX.run(en, *P, **kw, wait=o["wait"], until_next=o["until"], skip_until_exit=o["skip"], pick_first=o["first"])
                    b = r.exits
                price, typ = r.stop_price, r.stop_type
                sets = [tuple(full(x) for x in z) for z in zip(sl, tr, tp, rev)]
            else:
                if c(0, 1):
                    z = (sl[0], tr[0], tp[0], rev[0])
                else:
                    z = (rng.choice([0.125, 0.25, 0.5, np.nan], (n, w)), flags(rng, n, w, 0.5), rng.choice([0.125, 0.25, 0.5, np.nan], (n, w)), flags(rng, n, w, 0.5))
                sets = [tuple(np.broadcast_to(x, (n, w)) for x in z)]
                D = lambda x: F(x) if np.ndim(x) else x
                out = {}
                r = en.vbt.signals.generate_ohlc_stop_exits(*P, is_open_safe=safe, out_dict=out, sl_stop=D(z[0]), sl_trail=D(z[1]), tp_stop=D(z[2]), reverse=D(z[3]),
                    entry_wait=oc["ewait"], until_next=o["until"], skip_until_exit=o["skip"], pick_first=o["first"], chain=chain, exit_wait=oc["xwait"] if chain else o["wait"])
                a, b = r if chain else (None, r)
                price, typ = out["stop_price"], out["stop_type"]
            for q, (s, t, u, v) in enumerate(sets):
                for j in range(w):
                    B = lambda x: [bool(y) for y in x[:, j]]
                    ch = {"kind": "ohlc", "wait": oc["xwait"] if chain else o["wait"], "safe": safe, "open": nums(op[:, j]), "high": nums(hi[:, j]), "low": nums(lo[:, j]), "close": nums(cl[:, j]),
                          "sl": nums(s[:, j]), "trail": B(t), "tp": nums(u[:, j]), "reverse": B(v), "first": oc["xfirst"] if chain else o["first"]}
                    k = q * w + j
                    x = {"n": n, "ch": ch, "priced": True, "price": nums(col(price, k)), "type": [int(y) for y in col(typ, k)]}
                    if chain:
                        ops.append({"op": "chain", "o": oc, "ench": FIRST(col(en, j)), "en": col(a, k), "ex": col(b, k), **x})
                    else:
                        ops.append({"op": "exits", "o": o, "en": col(en, j), "out": col(b, k), **x})
        elif kind == "custom":
            ops.append(custom(rng, c))
        elif kind == "choose":
            a, first = flags(rng, n, w, c(0.0, 0.2, 0.6)), bool(c(0, 1))
            r = A.generate(shape, lambda f, t, j, m: np.flatnonzero(m[f:t, j]), a, pick_first=first)
            ops += [{"op": "choose", "n": n, "first": first, "a": col(a, j), "out": col(r, j)} for j in range(w)]
        elif kind == "rand":
            k = [int(v) for v in rng.integers(0, n + 1, w)] if c(0, 1) else [int(rng.integers(0, n + 1))] * w
            r = A.generate_random(shape, n=k if len(set(k)) > 1 else k[0], seed=int(rng.integers(1000)))
            ops += [{"op": "count", "n": n, "count": k[j], "out": col(r, j)} for j in range(w)]
        elif kind == "prob":
            p = rng.choice([0.0, 0.5, 1.0, 0.2], (n, w))
            first = bool(c(0, 1))
            r = A.generate_random(shape, prob=F(p) if c(0, 1) else p if not ser else p[:, 0], pick_first=first, seed=int(rng.integers(1000)))
            ops += [{"op": "prob", "n": n, "first": first, "prob": nums(p[:, j]), "out": col(r, j)} for j in range(w)]
        elif kind == "randex":
            must = bool(c(0, 1))
            p = np.ones((n, w)) / 2 if must else rng.choice([0.0, 0.5, 1.0], (n, w))
            o["first"] = True
            kw = dict(wait=o["wait"], until_next=o["until"], skip_until_exit=o["skip"], seed=int(rng.integers(1000)))
            r = en.vbt.signals.generate_random_exits(**kw) if must else en.vbt.signals.generate_random_exits(prob=F(p), **kw)
            ops += [{"op": "randex", "o": o, "n": n, "must": must, "prob": nums(p[:, j]), "en": col(en, j), "out": col(r, j)} for j in range(w)]
        elif kind == "both":
            ew, xw = c((1, 1), (1, 1), (0, 1), (1, 0), (2, 1), (1, 2), (2, 2))
            top = (n - xw - 1) // (ew + xw) + 1 if (ew, xw) != (1, 1) else n // 2
            ks = [int(v) for v in rng.integers(0, top + 1, w)]
            r = A.generate_random_both(shape, n=ks if w > 1 else ks[0], entry_wait=ew, exit_wait=xw, seed=int(rng.integers(1000)))
            ops += [{"op": "both", "n": n, "count": ks[j], "ewait": ew, "xwait": xw, "en": col(r[0], j), "ex": col(r[1], j)} for j in range(w)]
        elif kind == "probboth":
            sure = bool(c(0, 1))
            pe, px = (rng.choice([0.0, 1.0] if sure else [0.0, 0.3, 1.0], (n, w)) for _ in "ab")
            oc["efirst"], oc["xfirst"] = (bool(c(0, 1)), bool(c(0, 1))) if sure else (True, True)
            a, b = A.generate_random_both(shape, entry_prob=F(pe), exit_prob=F(px), entry_wait=oc["ewait"], exit_wait=oc["xwait"], entry_pick_first=oc["efirst"], exit_pick_first=oc["xfirst"], seed=int(rng.integers(1000)))
            for j in range(w):
                ch = (PROB(pe[:, j], oc["efirst"]), PROB(px[:, j], oc["xfirst"])) if sure else (SEEN(col(a, j)), SEEN(col(b, j)))
                ops.append({"op": "chain", "o": oc, "n": n, "ench": ch[0], "ch": ch[1], "en": col(a, j), "ex": col(b, j), "priced": False})
        else:
            ops += random_factories(rng, c, n, w, shape, en, o, F, FIRST, PROB)
    return {"ops": ops}


def random_factories(rng, c, n, w, shape, en, o, F, FIRST, PROB):
    which = c("RAND", "RANDX", "RANDNX", "RPROB", "RPROBX", "RPROBCX", "RPROBNX")
    seed = int(rng.integers(1000))
    o = {**o, "first": True}
    kw = dict(wait=o["wait"], until_next=o["until"], skip_until_exit=o["skip"], seed=seed)
    one = {"ewait": 1, "xwait": 1, "efirst": True, "xfirst": True}
    full = lambda v: nums(np.full(n, float(v)))
    if which == "RAND":
        ks = [int(v) for v in rng.integers(0, n + 1, 3)]
        r = vbt.RAND.run(n=ks, input_shape=shape, seed=seed).entries
        return [{"op": "count", "n": n, "count": k, "out": col(r, q * w + j)} for q, k in enumerate(ks) for j in range(w)]
    if which == "RANDX":
        r = vbt.RANDX.run(en, **kw).exits
        return [{"op": "randex", "o": o, "n": n, "must": True, "prob": full(0.5), "en": col(en, j), "out": col(r, j)} for j in range(w)]
    if which == "RANDNX":
        ks = [int(v) for v in rng.integers(0, n // 2 + 1, 3)]
        r = vbt.RANDNX.run(n=ks, input_shape=shape, seed=seed)
        return [{"op": "both", "n": n, "count": k, "ewait": 1, "xwait": 1, "en": col(r.entries, q * w + j), "ex": col(r.exits, q * w + j)} for q, k in enumerate(ks) for j in range(w)]
    ps = [c(0.0, 1.0, 0.5) for _ in range(3)]
    if which == "RPROB":
        r = vbt.RPROB.run(prob=ps, input_shape=shape, seed=seed).entries
        return [{"op": "prob", "n": n, "first": False, "prob": full(p), "out": col(r, q * w + j)} for q, p in enumerate(ps) for j in range(w)]
    if which == "RPROBX":
        r = vbt.RPROBX.run(en, prob=ps, **kw).exits
        return [{"op": "randex", "o": o, "n": n, "must": False, "prob": full(p), "en": col(en, j), "out": col(r, q * w + j)} for q, p in enumerate(ps) for j in range(w)]
    ps = [float(c(0, 1)) for _ in range(3)]
    if which == "RPROBCX":
        r = vbt.RPROBCX.run(en, prob=ps, seed=seed)
        return [{"op": "chain", "o": one, "n": n, "ench": FIRST(col(en, j)), "ch": PROB(np.full(n, p), True), "en": col(r.new_entries, q * w + j), "ex": col(r.exits, q * w + j), "priced": False} for q, p in enumerate(ps) for j in range(w)]
    qs = [float(c(0, 1)) for _ in range(3)]
    r = vbt.RPROBNX.run(entry_prob=ps, exit_prob=qs, input_shape=shape, seed=seed)
    return [{"op": "chain", "o": one, "n": n, "ench": PROB(np.full(n, p), True), "ch": PROB(np.full(n, x), True), "en": col(r.entries, q * w + j), "ex": col(r.exits, q * w + j), "priced": False} for q, (p, x) in enumerate(zip(ps, qs)) for j in range(w)]


def text(x, k=None):
    """What a function of a generator was handed."""
    if isinstance(x, np.ndarray):
        if x.ndim == 1:
            return "temp %d %s" % (len(x), x.dtype)
        if x.dtype == bool:
            return "entries"
        v = float(x.flat[0])
        return "in%d" % (v - 1000) if v >= 1000 else "out%d" % (-v % 100)
    if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], np.ndarray):
        return "%s x%d" % (text(x[0]), len(x)) if all(text(y) == text(x[0]) for y in x) else "mixed"
    if isinstance(x, list):
        return "<<%s>>" % ", ".join(text(y) for y in x)
    if isinstance(x, (bool, np.bool_)) or x is None or isinstance(x, (str, tuple)):
        return str(x)
    return str(int(x)) if x == int(x) else str(x)


def custom(rng, c):
    """A generator built from functions of the user, with inputs, in-place outputs, parameters and a cache."""
    mode = c("entries", "exits", "both", "chain", "chain")
    n, w = int(rng.integers(3, 9)), int(rng.integers(1, 3))
    plain = mode == "chain" and bool(c(0, 1))
    inputs = ["in%d" % i for i in range(c(0, 1, 2))]
    outs = ["out%d" % (i + 1) for i in range(c(0, 1, 2))]
    params = ["p%d" % i for i in range(c(0, 1, 2))]
    allin = (["entries"] if mode in ("exits", "chain") else []) + inputs
    some = lambda xs: [xs[i] for i in rng.permutation(len(xs))[:int(rng.integers(0, len(xs) + 1))]]
    extra = ["lag", "gap"]
    seen, cached, log = [], [], []

    def settings(cache=True):
        names = some(extra + ["wait", "until_next", "skip_until_exit", "pick_first", "temp_idx_arr", "temp_idx_arr2", "input_shape", "flex_2d"])
        more = [{"name": m, "default": "9" if m in extra and c(0, 1) else "?", "temp": m.startswith("temp")} for m in names]
        d = {"inputs": some(allin), "outs": some(outs), "params": some(params), "args": ["7%d" % i for i in range(c(0, 0, 1, 2))], "more": more,
             "given": [], "cache": bool(c(0, 1)) and cache}
        kw = dict(pass_inputs=d["inputs"], pass_in_outputs=d["outs"], pass_params=d["params"],
                  pass_kwargs=[(m["name"], 9) if m["default"] != "?" else m["name"] for m in more])
        if kw["pass_kwargs"] and all(isinstance(x, tuple) for x in kw["pass_kwargs"]):
            kw["pass_kwargs"] = dict(kw["pass_kwargs"])
        if cache:
            kw["pass_cache"] = d["cache"]
        for key in list(kw):
            if not kw[key] and c(0, 1):
                del kw[key]
        return d, kw

    def maker(side, d):
        def choice(a, b, j, *args):
            seen.append([side, int(a), int(b), int(j), [text(x) for x in args]])
            k = len(d["inputs"])
            arrs = args[k:k + len(d["outs"])]
            s = sum(int(v) for v in args[k + len(arrs):k + len(arrs) + len(d["params"])])
            r = np.array([i for i in range(a, b) if (7 * i * i + 3 * s + 2 * j + 4 * side) % 5 < 2], dtype=np.int64)
            for name, x in zip(d["outs"], arrs):
                x[r, j] = [-int(name[3:]) - 100 * (1 + i + 50 * side + s) for i in r]
            return r
        return choice
    (ef, ekw), (xf, xkw), (cf, ckw) = settings(), settings(), settings(False)
    has_cache = bool(c(0, 1))
    result = c(None, 5, (5, 6))
    def cache_func(*args):
        cached.append([text(x) for x in args])
        return result
    if not has_cache:
        cf = {**cf, "inputs": [], "outs": [], "params": [], "args": [], "more": []}
    K = c(1, 2, 3) if params else 1
    lists = {p: [int(v) for v in rng.permutation(6)[:K]] for p in params}
    product = len(params) == 2 and bool(c(0, 1))
    combos = [[a, b] for a in lists["p0"] for b in lists["p1"]] if product else [[lists[p][k] for p in params] for k in range(K)]
    flags_ = dict(var_args=True, **(dict(pass_flex_2d=True) if c(0, 1) else {}))
    def given(d, waits):
        g = {}
        if c(0, 1):
            g["wait"] = c(*waits)
        for key in ("until_next", "skip_until_exit", "pick_first"):
            if c(0, 0, 1):
                g[key] = bool(c(0, 1))
        if g.get("skip_until_exit"):
            g["until_next"] = False
        for key in extra:
            if c(0, 0, 1):
                g[key] = int(rng.integers(20, 30))
        d["given"] = [[k, str(v)] for k, v in g.items()]
        return g
    eg, xg = given(ef, (0, 1, 2)), given(xf, (1, 1, 2))
    if mode == "both" or (mode == "chain"):
        for d, g in ((ef, eg), (xf, xg)):
            g["pick_first"] = True
            d["given"] = [[k, str(v)] for k, v in g.items()]
    cg = {"lag": 4} if c(0, 1) else {}
    cf["given"] = [[k, str(v)] for k, v in cg.items()]
    cargs = [int(v) for v in cf["args"]]
    x = {"entries": rng.random((n, w)) < 0.4, **{m: np.full((n, w), 1000.0 + i) for i, m in enumerate(inputs)}}
    F = lambda v: pd.DataFrame(v, columns=list("ab")[:w])
    I = vbt.SignalFactory(mode=mode, input_names=inputs, in_output_names=outs, param_names=params)
    I = I.from_choice_func(
        **({} if mode == "exits" or plain else dict(entry_choice_func=maker(0, ef), entry_settings=dict(ekw, pass_inputs=ef["inputs"]))),
        **({} if mode == "entries" else dict(exit_choice_func=maker(1, xf), exit_settings=xkw)),
        **(dict(cache_func=cache_func, cache_settings=ckw) if has_cache else {}),
        **{m: -float(m[3:]) for m in outs}, **flags_)
    run = dict(param_product=product)
    if has_cache:
        run.update(cache_args=tuple(cargs), cache_kwargs=cg)
    pos = []
    if mode == "entries":
        pos, kw = [int(v) for v in ef["args"]], eg
    elif mode == "exits" or plain:
        pos, kw = [int(v) for v in xf["args"]], xg
        if plain:
            run["entry_kwargs"] = eg
    else:
        kw = dict(entry_args=tuple(int(v) for v in ef["args"]), exit_args=tuple(int(v) for v in xf["args"]), entry_kwargs=eg, exit_kwargs=xg)
    first = [F(x[m]) for m in allin] if allin else []
    shaped = [] if mode in ("exits", "chain") else [(n, w)]
    r = I.run(*shaped, *first, *[lists[p] for p in params], *pos, **run, **kw)
    ins = {m: np.asarray(getattr(r, m)) for m in outs}
    Q = len(combos) * w
    get = lambda name: [col(getattr(r, name), q) for q in range(Q)]
    flex = "True" if "pass_flex_2d" in flags_ else "None"
    return {"op": "custom", "n": n, "mode": mode, "plain": plain, "pnames": params, "onames": outs, "combos": combos, "ef": ef, "xf": xf,
            "cf": {**cf, "told": cached}, "shape": str((n, w)), "flex": flex, "temp": "temp %d int64" % n,
            "cached": [] if not has_cache or result is None else [str(v) for v in np.ravel(result)],
            "en": [col(x["entries"], j) for j in range(w)], "asked": seen,
            "a": get("entries" if mode != "chain" else "new_entries") if mode != "exits" else [],
            "b": get("exits") if mode != "entries" else [],
            "outs": [[[int(v) for v in col(ins[m], q)] for q in range(Q)] for m in outs]}
