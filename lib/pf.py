"""Portfolio drivers: random simulations of the real library and their recorded traces."""
import numpy as np
import pandas as pd
from vb import num, nums

STATUS = {0: "Filled", 1: "Ignored", 2: "Rejected"}
INFO = {-1: "", 0: "SizeNaN", 1: "PriceNaN", 2: "ValPriceNaN", 3: "ValueNaN", 4: "ValueZeroNeg", 5: "SizeZero",
        6: "NoCashShort", 7: "NoCashLong", 8: "NoOpenPosition", 9: "MaxSizeExceeded", 10: "RandomEvent",
        11: "CantCoverFees", 12: "MinSizeNotReached", 13: "PartialFill"}
SIDE = {-1: "", 0: "Buy", 1: "Sell"}
STYPES = ["Amount", "Value", "Percent", "TargetAmount", "TargetValue", "TargetPercent"]
DIRS = ["LongOnly", "ShortOnly", "Both"]


def log_event(r):
    """A log record as an event of OrderTrace / SimTrace."""
    return {
        "b": nums([r["cash"], r["position"], r["debt"], r["free_cash"], r["val_price"], r["value"]]),
        "o": [num(r["req_size"]), STYPES[int(r["req_size_type"])], DIRS[int(r["req_direction"])], num(r["req_price"]),
              num(r["req_fees"]), num(r["req_fixed_fees"]), num(r["req_slippage"]), num(r["req_min_size"]),
              num(r["req_max_size"]), num(r["req_size_granularity"]), num(r["req_reject_prob"]),
              bool(r["req_lock_cash"]), bool(r["req_allow_partial"])],
        "a": [STATUS.get(int(r["res_status"]), "?"), INFO.get(int(r["res_status_info"]), "?"),
              SIDE.get(int(r["res_side"]), "?"), num(r["res_size"]), num(r["res_price"]), num(r["res_fees"]),
              num(r["new_cash"]), num(r["new_position"]), num(r["new_debt"]), num(r["new_free_cash"])],
        "n": nums([r["new_val_price"], r["new_value"]]),
        "i": int(r["idx"]), "col": int(r["col"]), "grp": int(r["group"]), "id": int(r["id"]), "oid": int(r["order_id"]),
    }


def order_event(r):
    return {"id": int(r["id"]), "col": int(r["col"]), "i": int(r["idx"]), "size": num(r["size"]),
            "price": num(r["price"]), "fees": num(r["fees"]), "side": SIDE.get(int(r["side"]), "?")}


def pick(rng, vals, shape, p_const=0.5):
    """Random option: a scalar, a row, a column or a full array (always returned fully broadcast too)."""
    vals = np.asarray(vals)
    mode = rng.random()
    if mode < p_const:
        v = vals[rng.integers(len(vals))]
        return v, np.full(shape, v)
    if mode < p_const + (1 - p_const) * 0.3:
        v = vals[rng.integers(len(vals), size=(1, shape[1]))]
    elif mode < p_const + (1 - p_const) * 0.6:
        v = vals[rng.integers(len(vals), size=(shape[0], 1))]
    else:
        v = vals[rng.integers(len(vals), size=shape)]
    return v, np.broadcast_to(v, shape)


def rand_close(rng, shape, nan=0.0):
    kind = rng.random()
    if kind < 0.4:
        c = rng.integers(1, 9, size=shape).astype(float)
    elif kind < 0.7:
        c = np.round(rng.uniform(1, 20, size=shape), 2)
    else:
        c = np.round(10 * np.exp(np.cumsum(rng.normal(0, 0.2, size=shape), axis=0)), 3) + 0.01
    if nan:
        c = np.where(rng.random(shape) < nan, np.nan, c)
    return c


def rand_groups(rng, n):
    """Random contiguous group lengths summing to n."""
    lens = []
    while sum(lens) < n:
        lens.append(int(rng.integers(1, n - sum(lens) + 1)))
    return lens


def sizes_for(rng, stype, shape, clean=False):
    amt = [1, 2, 5, -1, -2, -5, 0, 0.5, 100, -100, 0.1, 7.3, -3.7]
    tab = {
        "Amount": amt + ([] if clean else [np.inf, -np.inf]),
        "TargetAmount": [1, 2, -1, -3, 0, 5, 0.5, 50, -50, 2.2],
        "Value": [10, 25, -10, -30, 0, 50, 200, 33.3],
        "TargetValue": [10, 50, -10, -30, 0, 100, 7.7],
        "Percent": [0.5, 1, -0.5, -1, 0.1, 0, 2, -2, -0.25],
        "TargetPercent": [0.5, 1, -0.5, -1, 0, 0.3, 2, -1.5, 1 / 3],
    }
    return tab[stype]


def rand_orders_kwargs(rng, t=None, n=None, groups=None, sharing=None, simple=False):
    """Random arguments of Portfolio.from_orders; returns (kwargs, full): full holds each option fully broadcast."""
    t = t or int(rng.integers(1, 9))
    n = n or int(rng.integers(1, 5))
    shape = (t, n)
    kw, full = {}, {}
    close = rand_close(rng, shape, nan=0.15 if rng.random() < 0.2 else 0.0)
    full["close"] = close
    kw["close"] = pd.DataFrame(close, columns=["c%d" % i for i in range(n)])
    st_i = rng.integers(0, 6, size=(1, n) if rng.random() < 0.7 else shape)
    if rng.random() < 0.3:
        st_i = np.full((1, 1), int(rng.integers(0, 6)))
    st_full = np.broadcast_to(st_i, shape)
    size = np.empty(shape)
    for i in range(t):
        for j in range(n):
            v = sizes_for(rng, STYPES[st_full[i, j]], shape)
            size[i, j] = v[rng.integers(len(v))]
    size[rng.random(shape) < 0.1] = np.nan
    kw["size"], full["size"] = size, size
    kw["size_type"], full["size_type"] = (int(st_i[0, 0]) if st_i.size == 1 else st_i), st_full
    d = rng.integers(0, 3, size=(1, n))
    if rng.random() < 0.4:
        d = np.full((1, n), 2)
    kw["direction"], full["direction"] = d, np.broadcast_to(d, shape)

    def opt(name, vals, prob):
        if simple or rng.random() > prob:
            return
        kw[name], full[name] = pick(rng, vals, shape)

    opt("price", [np.inf, -np.inf], 0.2)
    if "price" not in kw and rng.random() < 0.5:
        p = np.where(rng.random(shape) < 0.1, np.nan, np.round(np.nan_to_num(close, nan=5) * rng.uniform(0.9, 1.1, shape), 2))
        p = np.where(rng.random(shape) < 0.15, np.inf, p)
        p = np.where(rng.random(shape) < 0.15, -np.inf, p)
        kw["price"], full["price"] = p, p
    opt("fees", [0, 0.01, 0.25, 0.1, -0.01], 0.5)
    opt("fixed_fees", [0, 1, 0.5, 10, 0.03], 0.4)
    opt("slippage", [0, 0.01, 0.25, 0.5], 0.4)
    opt("min_size", [0, 1, 2, 0.5], 0.3)
    opt("max_size", [np.inf, 1, 2, 5, 3.3], 0.3)
    opt("size_granularity", [np.nan, 1, 0.5, 0.1, 2], 0.3)
    opt("reject_prob", [0, 0, 1, 0.5], 0.15)
    opt("lock_cash", [True, False], 0.5)
    opt("allow_partial", [True, False], 0.4)
    opt("val_price", [np.inf, -np.inf, -np.inf], 0.4)
    if "val_price" not in kw and rng.random() < 0.25:
        p = np.where(rng.random(shape) < 0.15, np.nan, np.round(rng.uniform(1, 20, shape), 2))
        p = np.where(rng.random(shape) < 0.2, -np.inf, p)
        kw["val_price"], full["val_price"] = p, p
    for name, dflt in (("price", np.inf), ("fees", 0), ("fixed_fees", 0), ("slippage", 0), ("min_size", 1e-8),
                       ("max_size", np.inf), ("size_granularity", np.nan), ("reject_prob", 0), ("lock_cash", False),
                       ("allow_partial", True), ("val_price", np.inf)):
        full.setdefault(name, np.full(shape, dflt))
    if groups is None and n > 1 and rng.random() < 0.65:
        groups = rand_groups(rng, n)
    if groups:
        kw["group_by"] = np.repeat(np.arange(len(groups)), groups)
        kw["cash_sharing"] = bool(rng.random() < 0.75) if sharing is None else sharing
    shared = bool(kw.get("cash_sharing", False))
    glens = groups if shared else [1] * n
    ic = rng.choice([100, 16, 50.5, 7, 1000], size=len(glens)).astype(float)
    kw["init_cash"] = ic if rng.random() < 0.6 else float(ic[0])
    full["init_cash"] = ic if not np.isscalar(kw["init_cash"]) else np.full(len(glens), ic[0])
    full["glens"] = glens
    cs = "default"
    if groups:
        r = rng.random()
        if r < 0.35:
            cs = "auto"
        elif r < 0.5:
            cs = "reversed"
        elif r < 0.6:
            cs = "random"
        elif r < 0.75:
            cs = "array"
    if cs == "array":
        a = np.empty(shape, dtype=int)
        f = 0
        for g in groups:
            for i in range(t):
                a[i, f:f + g] = rng.permutation(g)
            f += g
        kw["call_seq"] = a
        full["call_seq"] = a
    elif cs != "default":
        kw["call_seq"] = cs
    full["cs"] = cs
    kw["ffill_val_price"] = bool(rng.random() < 0.7)
    kw["update_value"] = bool(rng.random() < 0.4)
    kw["log"] = True
    kw["seed"] = int(rng.integers(0, 1000))
    full["shape"] = shape
    full["groups"] = groups
    return kw, full


def uniform(kw, full):
    """The same arguments with every option a full two-dimensional float array (one compiled signature)."""
    kw = dict(kw)
    for f in ("size", "price", "fees", "fixed_fees", "slippage", "min_size", "max_size", "size_granularity",
              "reject_prob", "val_price"):
        if f in full:
            kw[f] = np.array(full[f], dtype=np.float64, order="C")
    for f in ("size_type", "direction"):
        if f in full:
            kw[f] = np.array(full[f], dtype=np.int64, order="C")
    for f in ("lock_cash", "allow_partial"):
        if f in full:
            kw[f] = np.array(full[f], dtype=np.bool_, order="C")
    kw["init_cash"] = np.array(full["init_cash"], dtype=np.float64)
    return kw
