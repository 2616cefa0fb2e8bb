"""Random simulations from signals and their recorded traces."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.base.reshape_fns import flex_select_auto_nb
from vb import num, nums
import pf

ACC = ["Disabled", "Both", "AddOnly", "RemoveOnly"]
CONF = ["Ignore", "Entry", "Exit", "Adjacent", "Opposite"]
DCONF = ["Ignore", "Long", "Short", "Adjacent", "Opposite"]
OPP = ["Ignore", "Close", "CloseReduce", "Reverse", "ReverseReduce"]
SEP = ["ValPrice", "Price", "FillPrice", "Close"]
SXP = ["StopLimit", "StopMarket", "Price", "Close"]
USX = ["Close", "CloseReduce", "Reverse", "ReverseReduce"]
USU = ["Keep", "Override", "OverrideNaN"]


def tab(a):
    return [nums(r) for r in np.asarray(a, dtype=float)]


def btab(a):
    return [[bool(x) for x in r] for r in a]


def etab(a, names):
    return [[names[int(x)] for x in r] for r in a]


def rand_signals(rng, stops, t=None, n=None, func=False, simple=False):
    """Random arguments of Portfolio.from_signals; returns (kwargs, full)."""
    t = t or int(rng.integers(1, 10))
    n = n or int(rng.integers(1, 5))
    shape = (t, n)
    kw, full = {}, {"shape": shape}
    dy = rng.random() < 0.6                       # dyadic prices: levels are met exactly
    if dy:
        close = rng.choice([6, 8, 9, 10, 12, 16, 20, 7.5], size=shape).astype(float)
    else:
        close = np.round(10 * np.exp(np.cumsum(rng.normal(0, 0.15, size=shape), axis=0)), 2)
    if rng.random() < 0.1:
        close = np.where(rng.random(shape) < 0.1, np.nan, close)
    kw["close"] = pd.DataFrame(close, columns=["c%d" % i for i in range(n)])
    full["close"] = close

    def put(name, val, f=None):
        kw[name], full[name] = val, np.broadcast_to(np.asarray(val if f is None else f), shape)

    def opt(name, vals, prob, dflt):
        if rng.random() < prob:
            kw[name], full[name] = pf.pick(rng, vals, shape)
        else:
            full[name] = np.full(shape, dflt)

    def b(p):
        return rng.random(shape) < p

    kind = "func" if func else ("dir" if rng.random() < 0.5 else "ls")
    full["kind"] = kind
    dens = rng.choice([0.15, 0.3, 0.5])
    for f in ("en", "ex", "le", "lx", "se", "sx"):
        full[f] = b(dens)
    sd = rng.integers(0, 3, size=(1, n))
    pct = False
    if kind == "dir":
        kw["entries"], kw["exits"], kw["direction"] = full["en"], full["ex"], sd
        full["sdir"] = np.broadcast_to(sd, shape)
        pct = bool((sd != 2).all()) and rng.random() < 0.4
    elif kind == "ls":
        kw["entries"], kw["exits"], kw["short_entries"], kw["short_exits"] = full["le"], full["lx"], full["se"], full["sx"]
    st = rng.integers(0, 2, size=(1, n))
    if pct:
        st = np.full((1, n), 2)
    put("size_type", st)
    size = rng.choice([0.5, 1, 0.25] if pct else [1, 2, 5, 20, np.inf] if rng.random() < 0.7 else [1, 2, 5, 20, 0, np.nan, 0.3], size=shape)
    if (st == 1).any():
        size = np.where(np.isinf(size), 30, size)
    put("size", size)
    opt("price", [np.inf, -np.inf], 0.2, np.inf)
    if "price" not in kw and rng.random() < 0.3:
        p = np.where(rng.random(shape) < 0.1, np.nan, np.round(np.nan_to_num(close, nan=5) * rng.uniform(0.9, 1.1, shape), 2))
        p = np.where(rng.random(shape) < 0.2, -np.inf, p)
        put("price", p)
    opt("fees", [0, 0.01, 0.25], 0.3, 0.0)
    opt("fixed_fees", [0, 1, 0.5], 0.3, 0.0)
    opt("slippage", [0, 0.01, 0.25], 0.4, 0.0)
    opt("min_size", [0, 1, 0.5], 0.2, 1e-8)
    opt("max_size", [np.inf, 1, 5, 3.3], 0.2, np.inf)
    opt("size_granularity", [np.nan, 1, 0.5], 0.15, np.nan)
    opt("reject_prob", [0, 0, 1], 0.15, 0.0)
    opt("lock_cash", [True, False], 0.5, False)
    opt("allow_partial", [True, False], 0.3, True)
    opt("accumulate", [0, 1, 2, 3], 0.6, 0)
    opt("upon_long_conflict", range(5), 0.7, 0)
    opt("upon_short_conflict", range(5), 0.7, 0)
    opt("upon_dir_conflict", range(5), 0.7, 0)
    opt("upon_opposite_entry", range(5), 0.7, 4)
    opt("val_price", [np.inf, -np.inf], 0.4, np.inf)
    # open, high, low
    for f in ("open", "high", "low"):
        full[f] = np.full(shape, np.nan)
    if rng.random() < (0.85 if stops else 0.2):
        if dy:
            op = rng.choice([6, 8, 9, 10, 12, 16, 20, 7.5], size=shape).astype(float)
            up = rng.choice([0, 1, 2, 4], size=shape)
            dn = rng.choice([0, 1, 2, 4], size=shape)
        else:
            op = np.round(np.nan_to_num(close, nan=9) * rng.uniform(0.9, 1.1, shape), 2)
            up, dn = np.round(rng.uniform(0, 2, shape), 2), np.round(rng.uniform(0, 2, shape), 2)
        cl = np.nan_to_num(close, nan=9)
        hi, lo = np.maximum(op, cl) + up, np.minimum(op, cl) - dn
        for f, a in (("open", op), ("high", hi), ("low", lo)):
            if rng.random() < 0.85:
                a = np.where(rng.random(shape) < 0.1, np.nan, a)
                put(f, a)
    sl = [np.nan, 0.25, 0.125, 0.5] if dy else [np.nan, 0.1, 0.05, 0.3]
    for f, dflt in (("sl_stop", np.nan), ("sl_trail", False), ("tp_stop", np.nan), ("stop_entry_price", 3), ("stop_exit_price", 0),
                    ("upon_stop_exit", 0), ("upon_stop_update", 1)):
        full[f] = np.full(shape, dflt)
    full["stops"] = False
    if stops:
        full["stops"] = True
        kw["use_stops"] = True
        opt("sl_stop", sl, 0.85, np.nan)
        opt("sl_trail", [True, False], 0.6, False)
        opt("tp_stop", sl, 0.6, np.nan)
        opt("stop_entry_price", range(4), 0.6, 3)
        opt("stop_exit_price", range(4), 0.6, 0)
        opt("upon_stop_exit", [0, 1] if pct else range(4), 0.6, 0)
        opt("upon_stop_update", range(3), 0.6, 1)
        if "sl_stop" in kw or "tp_stop" in kw:
            if rng.random() < 0.5 and not (np.isscalar(kw.get("sl_stop", np.nan)) and np.isnan(kw.get("sl_stop", np.nan))
                                           and np.isscalar(kw.get("tp_stop", np.nan)) and np.isnan(kw.get("tp_stop", np.nan))):
                del kw["use_stops"]
    groups = pf.rand_groups(rng, n) if n > 1 and rng.random() < 0.5 else None
    if groups:
        kw["group_by"] = np.repeat(np.arange(len(groups)), groups)
        kw["cash_sharing"] = bool(rng.random() < 0.8)
    shared = bool(kw.get("cash_sharing", False))
    glens = groups if shared else [1] * n
    ic = rng.choice([100, 64, 50.5, 1000], size=len(glens)).astype(float)
    kw["init_cash"] = ic
    full["init_cash"], full["glens"] = ic, glens
    cs = "default"
    if groups:
        r = rng.random()
        cs = "auto" if r < 0.4 else "reversed" if r < 0.6 else "array" if r < 0.75 else "default"
    if cs == "array":
        a = np.empty(shape, dtype=int)
        f = 0
        for g in groups:
            for i in range(t):
                a[i, f:f + g] = rng.permutation(g)
            f += g
        kw["call_seq"] = full["call_seq"] = a
    elif cs != "default":
        kw["call_seq"] = cs
    full["cs"] = cs
    kw["ffill_val_price"] = bool(rng.random() < 0.7)
    kw["update_value"] = bool(rng.random() < 0.3)
    kw["log"] = True
    kw["seed"] = 1
    return kw, full


INTS = ("size_type", "accumulate", "upon_long_conflict", "upon_short_conflict", "upon_dir_conflict", "upon_opposite_entry",
        "stop_entry_price", "stop_exit_price", "upon_stop_exit", "upon_stop_update")
FLOATS = ("size", "price", "fees", "fixed_fees", "slippage", "min_size", "max_size", "size_granularity", "reject_prob",
          "val_price", "open", "high", "low", "sl_stop", "tp_stop")
BOOLS = ("lock_cash", "allow_partial", "sl_trail")


def uniform(kw, full):
    kw = dict(kw)
    for f in FLOATS:
        kw[f] = np.array(full[f], dtype=np.float64, order="C")
    for f in INTS:
        kw[f] = np.array(full[f], dtype=np.int64, order="C")
    for f in BOOLS:
        kw[f] = np.array(full[f], dtype=np.bool_, order="C")
    kw["use_stops"] = full["stops"]
    for f in ("entries", "exits", "short_entries", "short_exits"):
        if f in kw:
            kw[f] = np.array(kw[f], dtype=np.bool_, order="C")
    if "direction" in kw:
        kw["direction"] = np.array(full["sdir"], dtype=np.int64, order="C")
    return kw


def case(kw, full, p, calls=None, adjsl=False, adjtp=False):
    t, n = full["shape"]
    glens = full["glens"]
    to = np.cumsum(glens)
    shared = bool(kw.get("cash_sharing", False))
    d = {"n": n, "t": t, "from": [int(x) for x in to - glens + 1], "to": [int(x) for x in to], "sharing": shared,
         "auto": full["cs"] == "auto", "ffill": kw["ffill_val_price"], "upd": kw["update_value"], "init": nums(full["init_cash"]),
         "kind": full["kind"], "stops": bool(full["stops"]), "adjsl": adjsl, "adjtp": adjtp,
         "close": tab(full["close"]), "size": tab(full["size"]), "price": tab(full["price"]), "vp": tab(full["val_price"]),
         "stype": etab(full["size_type"], pf.STYPES), "fees": tab(full["fees"]), "ffees": tab(full["fixed_fees"]),
         "slip": tab(full["slippage"]), "minsz": tab(full["min_size"]), "maxsz": tab(full["max_size"]),
         "gran": tab(full["size_granularity"]), "rp": tab(full["reject_prob"]), "lock": btab(full["lock_cash"]),
         "partial": btab(full["allow_partial"]), "acc": etab(full["accumulate"], ACC),
         "lconf": etab(full["upon_long_conflict"], CONF), "sconf": etab(full["upon_short_conflict"], CONF),
         "dconf": etab(full["upon_dir_conflict"], DCONF), "opp": etab(full["upon_opposite_entry"], OPP),
         "open": tab(full["open"]), "high": tab(full["high"]), "low": tab(full["low"]), "sl": tab(full["sl_stop"]),
         "trail": btab(full["sl_trail"]), "tp": tab(full["tp_stop"]), "sep": etab(full["stop_entry_price"], SEP),
         "sxp": etab(full["stop_exit_price"], SXP), "usx": etab(full["upon_stop_exit"], USX),
         "usu": etab(full["upon_stop_update"], USU), "seq": [],
         "own": tab(full["own"]) if "own" in full else [], "told": full.get("told", [])}
    if full["kind"] == "dir":
        d["en"], d["ex"], d["sdir"] = btab(full["en"]), btab(full["ex"]), etab(full["sdir"], pf.DIRS)
    elif full["kind"] == "ls":
        for f in ("le", "lx", "se", "sx"):
            d[f] = btab(full[f])
    if shared and not d["auto"]:
        if full["cs"] == "array":
            s = full["call_seq"]
        else:
            step = -1 if full["cs"] == "reversed" else 1
            s = np.broadcast_to(np.concatenate([np.arange(g)[::step] for g in glens]), (t, n))
        d["seq"] = [[int(x) for x in r] for r in s]
    gof = np.repeat(np.arange(len(glens)), glens)
    bars = [[[] for _ in range(t)] for _ in glens]
    stray = 0
    for r in sorted(p.logs.values, key=lambda r: int(r["id"])):
        e = pf.log_event(r)
        bars[gof[e["col"]]][e["i"]].append(e)
    d["bars"], d["stray"] = bars, stray
    cl = [[[] for _ in range(t)] for _ in glens]
    for e in calls or []:
        cl[gof[e["col"]]][e["i"]].append(e)
    d["calls"] = cl
    return d


def steps(cases):
    return sum(len(c["from"]) * c["t"] + 2 for c in cases)


def with_templates(rng, kw, full):
    """The same with arguments of the functions given by name: a table of their own that travels with the close, and what else names stand for."""
    t, n = full["shape"]
    own = np.round(rng.normal(size=(t, n)), 3)
    form = int(rng.integers(5))
    own = own if form < 2 else own[:, :1] if form == 2 else own[:1] if form == 3 else own[0, 0]
    full["own"] = np.broadcast_to(own, (t, n))
    own = pd.DataFrame(own, columns=kw["close"].columns) if form == 1 else own
    full["told"] = told = []

    def tell(own, close, sl_stop, fees, target_shape, group_lens, init_cash, use_stops, auto_call_seq, ffill_val_price, update_value, max_orders, max_logs, flex_2d,
             wrapper, spoon):
        told.append({"shape": [int(x) for x in target_shape], "ncash": len(init_cash), "init": nums(init_cash), "close": tab(close),
                     "sl": tab(np.broadcast_to(sl_stop, (t, n))), "fees": tab(np.broadcast_to(fees, (t, n))), "stops": bool(use_stops), "auto": bool(auto_call_seq),
                     "ffill": bool(ffill_val_price), "upd": bool(update_value), "orders": int(max_orders), "logs": int(max_logs),
                     "flex": bool(flex_2d), "cols": len(wrapper.columns), "spoon": spoon})
        return own
    kw["broadcast_named_args"] = {"own": own}
    kw["template_mapping"] = {"spoon": 7}
    kw["signal_args"] = (vbt.RepFunc(tell), vbt.RepEval("spoon + 1"))
    kw["adjust_sl_args"] = (vbt.Rep("own"), vbt.RepEval("spoon + 1"))
    kw["adjust_tp_args"] = (vbt.RepEval("own"), vbt.RepEval("target_shape[0] * 0 + spoon + 1"))


def callbacks(rng, full, use_sl, use_tp):
    """Recording signal and adjustment functions (interpreted mode)."""
    calls = []

    def own(c, args):
        if not args:
            return {}
        assert args[1] == 8, args[1]
        return {"own": num(flex_select_auto_nb(np.asarray(args[0]), c.i, c.col, getattr(c, "flex_2d", True)))}
    le, lx, se, sx = full["le"], full["lx"], full["se"], full["sx"]
    slv = rng.choice([np.nan, 0.25, 0.5, 0.125, -1], size=full["shape"], p=[0.1, 0.1, 0.1, 0.1, 0.6])
    slt = rng.random(full["shape"]) < 0.3
    tpv = rng.choice([np.nan, 0.25, 0.5, 0.125, -1], size=full["shape"], p=[0.1, 0.1, 0.1, 0.1, 0.6])

    def sig(c, *args):
        r = (bool(le[c.i, c.col]), bool(lx[c.i, c.col]), bool(se[c.i, c.col]), bool(sx[c.i, c.col]))
        if c.position_now != 0 and c.i % 3 == 2:      # a function of the position
            r = (False, c.position_now > 0, False, c.position_now < 0)
        calls.append({"k": "sig", "i": int(c.i), "col": int(c.col), "pos": num(c.position_now), "vp": num(c.val_price_now),
                      "ret": [bool(x) for x in r], **own(c, args)})
        return r

    def adj_sl(c, *args):
        v, tr = slv[c.i, c.col], bool(c.curr_trail)
        if v == -1:
            v = c.curr_stop
        elif slt[c.i, c.col]:
            tr = not tr
        calls.append({"k": "sl", "i": int(c.i), "col": int(c.col), "pos": num(c.position_now), "vp": num(c.val_price_now),
                      "init_i": int(c.init_i), "curr_i": int(c.curr_i), "curr_trail": bool(c.curr_trail),
                      "v": nums([c.init_price, c.curr_price, c.curr_stop]), "ret": [num(v)], "trail": tr, **own(c, args)})
        return v, tr

    def adj_tp(c, *args):
        v = tpv[c.i, c.col]
        if v == -1:
            v = c.curr_stop
        calls.append({"k": "tp", "i": int(c.i), "col": int(c.col), "pos": num(c.position_now), "vp": num(c.val_price_now),
                      "init_i": int(c.init_i), "v": nums([c.init_price, c.curr_stop]), "ret": [num(v)], **own(c, args)})
        return v
    return calls, sig, adj_sl if use_sl else None, adj_tp if use_tp else None
