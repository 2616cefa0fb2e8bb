"""Recording callbacks for the callback simulators.  The same functions run interpreted and compiled."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from numba import config, njit
from vectorbt.portfolio import nb as pnb
from vectorbt.portfolio.enums import NoOrder
from vb import num, nums
import pf

order_nb, sort_nb = pnb.order_nb, pnb.sort_call_seq_nb
KIND = ["preSim", "postSim", "preGroup", "postGroup", "preRow", "postRow", "preSeg", "postSeg", "order", "postOrder"]
HEAD = 8          # kind, i, g, col, k, token, nothing, nothing
EX = 32           # kind-specific numbers
REC = ("id", "col", "size", "entry_idx", "entry_price", "entry_fees", "exit_idx", "exit_price", "exit_fees", "pnl",
       "return", "direction", "status", "parent_id")


def blanks(c):
    """Slots of orders and logs not written yet that hold something else than a blank."""
    o = c.order_records[np.max(c.last_oidx) + 1:]
    g = c.log_records[np.max(c.last_lidx) + 1:]
    bad = np.sum(o["id"] != -1) + np.sum(o["col"] != -1) + np.sum(o["idx"] != -1) + np.sum(o["side"] != -1)
    bad += np.sum(~np.isnan(o["size"])) + np.sum(~np.isnan(o["price"])) + np.sum(~np.isnan(o["fees"]))
    bad += np.sum(g["id"] != -1) + np.sum(g["group"] != -1) + np.sum(g["col"] != -1) + np.sum(g["idx"] != -1)
    bad += np.sum(g["res_side"] != -1) + np.sum(g["res_status"] != -1) + np.sum(g["res_status_info"] != -1) + np.sum(g["order_id"] != -1)
    bad += np.sum(g["req_size_type"] != -1) + np.sum(g["req_direction"] != -1)
    bad += np.sum(~np.isnan(g["cash"])) + np.sum(~np.isnan(g["position"])) + np.sum(~np.isnan(g["debt"])) + np.sum(~np.isnan(g["free_cash"]))
    bad += np.sum(~np.isnan(g["val_price"])) + np.sum(~np.isnan(g["value"])) + np.sum(~np.isnan(g["req_size"])) + np.sum(~np.isnan(g["req_price"]))
    bad += np.sum(~np.isnan(g["req_fees"])) + np.sum(~np.isnan(g["req_fixed_fees"])) + np.sum(~np.isnan(g["req_slippage"]))
    bad += np.sum(~np.isnan(g["req_min_size"])) + np.sum(~np.isnan(g["req_max_size"])) + np.sum(~np.isnan(g["req_size_granularity"]))
    bad += np.sum(~np.isnan(g["req_reject_prob"])) + np.sum(g["req_lock_cash"]) + np.sum(g["req_allow_partial"])
    bad += np.sum(g["req_raise_reject"]) + np.sum(g["req_log"])
    bad += np.sum(~np.isnan(g["new_cash"])) + np.sum(~np.isnan(g["new_position"])) + np.sum(~np.isnan(g["new_debt"]))
    bad += np.sum(~np.isnan(g["new_free_cash"])) + np.sum(~np.isnan(g["new_val_price"])) + np.sum(~np.isnan(g["new_value"]))
    bad += np.sum(~np.isnan(g["res_size"])) + np.sum(~np.isnan(g["res_price"])) + np.sum(~np.isnan(g["res_fees"]))
    for r in c.last_pos_record:
        if r["id"] < 0:
            bad += int(r["id"] != -1) + int(r["col"] != -1) + int(r["entry_idx"] != -1) + int(r["exit_idx"] != -1) + int(r["direction"] != -1)
            bad += int(r["status"] != -1) + int(r["parent_id"] != -1) + int(not np.isnan(r["size"])) + int(not np.isnan(r["entry_price"]))
            bad += int(not np.isnan(r["entry_fees"])) + int(not np.isnan(r["exit_price"])) + int(not np.isnan(r["exit_fees"]))
            bad += int(not np.isnan(r["pnl"])) + int(not np.isnan(r["return"]))
    return bad


if not config.DISABLE_JIT:
    @njit
    def blanks(c):      # looked at without compilation only: it takes long to compile
        return 0


@njit
def snap(c, buf, cnt, kind, i, g, col, k, tok):
    e = buf[cnt[0]]
    cnt[0] += 1
    e[0] = kind
    e[1] = i
    e[2] = g
    e[3] = col
    e[4] = k
    e[5] = tok
    p = HEAD + EX
    for u in range(len(c.last_cash)):
        e[p] = c.last_cash[u]
        e[p + 1] = c.last_free_cash[u]
        e[p + 2] = c.last_value[u]
        e[p + 3] = c.second_last_value[u]
        e[p + 4] = c.last_return[u]
        p += 5
    for j in range(c.target_shape[1]):
        e[p] = c.last_position[j]
        e[p + 1] = c.last_debt[j]
        e[p + 2] = c.last_val_price[j]
        e[p + 3] = c.last_oidx[j]
        e[p + 4] = c.last_lidx[j]
        r = c.last_pos_record[j]
        e[p + 5] = r["id"]
        if r["id"] >= 0:
            e[p + 6] = r["col"]
            e[p + 7] = r["size"]
            e[p + 8] = r["entry_idx"]
            e[p + 9] = r["entry_price"]
            e[p + 10] = r["entry_fees"]
            e[p + 11] = r["exit_idx"]
            e[p + 12] = r["exit_price"]
            e[p + 13] = r["exit_fees"]
            e[p + 14] = r["pnl"]
            e[p + 15] = r["return"]
            e[p + 16] = r["direction"]
            e[p + 17] = r["status"]
            e[p + 18] = r["parent_id"]
        p += 19
    return e


@njit
def pre_sim(c, buf, cnt):
    e = snap(c, buf, cnt, 0, -1, -1, -1, -1, 0)
    e[6] = blanks(c)
    return (1,)


@njit
def post_sim(c, buf, cnt):
    e = snap(c, buf, cnt, 1, -1, -1, -1, -1, 0)
    e[6] = blanks(c)


@njit
def pre_group(c, tok, buf, cnt):
    snap(c, buf, cnt, 2, -1, c.group, c.from_col, c.to_col, tok)
    return (tok * 100 + c.group + 1,)


@njit
def post_group(c, tok, buf, cnt):
    snap(c, buf, cnt, 3, -1, c.group, c.from_col, c.to_col, tok)


@njit
def pre_row(c, tok, buf, cnt):
    snap(c, buf, cnt, 4, c.i, -1, -1, -1, tok)
    return (tok * 100 + c.i + 1,)


@njit
def post_row(c, tok, buf, cnt):
    snap(c, buf, cnt, 5, c.i, -1, -1, -1, tok)


@njit
def pre_seg(c, tok, buf, cnt, vset, cset, tmp, size, stype, dirn):
    e = snap(c, buf, cnt, 6, c.i, c.group, c.from_col, c.to_col, tok)
    for col in range(c.from_col, c.to_col):
        if vset[c.i, col] != -1:
            c.last_val_price[col] = vset[c.i, col]
    if c.call_seq_now is not None:
        m = cset[c.i, c.group]
        e[HEAD] = m
        if m == 1:
            sort_nb(c, size, stype, dirn, tmp[c.from_col:c.to_col])
        elif m == 2:
            for k in range(c.group_len // 2):
                x = c.call_seq_now[k]
                c.call_seq_now[k] = c.call_seq_now[c.group_len - 1 - k]
                c.call_seq_now[c.group_len - 1 - k] = x
        for k in range(c.group_len):
            e[HEAD + 1 + k] = c.call_seq_now[k]
    return (tok * 100 + c.i + 51,)


# the flexible simulators have no call sequence
@njit
def pre_seg_flex(c, tok, buf, cnt, vset):
    snap(c, buf, cnt, 6, c.i, c.group, c.from_col, c.to_col, tok)
    for col in range(c.from_col, c.to_col):
        if vset[c.i, col] != -1:
            c.last_val_price[col] = vset[c.i, col]
    return (tok * 100 + c.i + 51,)


@njit
def post_seg(c, tok, buf, cnt):
    snap(c, buf, cnt, 7, c.i, c.group, c.from_col, c.to_col, tok)


@njit
def make(e, pos, row):
    """The order of this call; flag 1: close the position when there is one."""
    size = row[0]
    st = int(row[1])
    if row[13] == 1 and pos != 0:
        size = 0.0
        st = 3
    o = order_nb(size=size, size_type=st, direction=int(row[2]), price=row[3], fees=row[4], fixed_fees=row[5],
                 slippage=row[6], min_size=row[7], max_size=row[8], size_granularity=row[9], reject_prob=row[10],
                 lock_cash=row[11] == 1, allow_partial=row[12] == 1, log=row[14] == 1)
    x = HEAD + 7
    e[x] = o.size
    e[x + 1] = o.size_type
    e[x + 2] = o.direction
    e[x + 3] = o.price
    e[x + 4] = o.fees
    e[x + 5] = o.fixed_fees
    e[x + 6] = o.slippage
    e[x + 7] = o.min_size
    e[x + 8] = o.max_size
    e[x + 9] = o.size_granularity
    e[x + 10] = o.reject_prob
    e[x + 11] = o.lock_cash
    e[x + 12] = o.allow_partial
    e[x + 13] = o.log
    return o


@njit
def order(c, tok, buf, cnt, tab):
    e = snap(c, buf, cnt, 8, c.i, c.group, c.col, c.call_idx, tok)
    e[HEAD] = c.cash_now
    e[HEAD + 1] = c.position_now
    e[HEAD + 2] = c.debt_now
    e[HEAD + 3] = c.free_cash_now
    e[HEAD + 4] = c.val_price_now
    e[HEAD + 5] = c.value_now
    e[HEAD + 6] = c.return_now
    return make(e, c.position_now, tab[c.i, c.col])


@njit
def flex_order(c, tok, buf, cnt, tab, cols):
    e = snap(c, buf, cnt, 8, c.i, c.group, -1, c.call_idx, tok)
    col = -1
    if c.call_idx < cols.shape[2]:
        col = cols[c.i, c.group, c.call_idx]
    e[HEAD + 21] = col
    row = tab[c.i, max(col, 0)].copy()
    if c.call_idx % 2 == 1:
        row[0] = -row[0]
    o = make(e, c.last_position[max(col, 0)], row)
    return col, o


@njit
def post_order(c, tok, buf, cnt):
    e = snap(c, buf, cnt, 9, c.i, c.group, c.col, c.call_idx, tok)
    e[HEAD] = c.cash_before
    e[HEAD + 1] = c.position_before
    e[HEAD + 2] = c.debt_before
    e[HEAD + 3] = c.free_cash_before
    e[HEAD + 4] = c.val_price_before
    e[HEAD + 5] = c.value_before
    r = c.order_result
    e[HEAD + 6] = r.size
    e[HEAD + 7] = r.price
    e[HEAD + 8] = r.fees
    e[HEAD + 9] = r.side
    e[HEAD + 10] = r.status
    e[HEAD + 11] = r.status_info
    e[HEAD + 12] = c.cash_now
    e[HEAD + 13] = c.position_now
    e[HEAD + 14] = c.debt_now
    e[HEAD + 15] = c.free_cash_now
    e[HEAD + 16] = c.val_price_now
    e[HEAD + 17] = c.value_now
    e[HEAD + 18] = c.return_now


def program(rng, n=None, t=None, row=None, flex=None, small=False):
    n = n or int(rng.integers(1, 5))
    t = t or int(rng.integers(1, 6))
    shape = (t, n)
    pr = {"n": n, "t": t, "row": bool(rng.random() < 0.5) if row is None else row,
          "flex": bool(rng.random() < 0.5) if flex is None else flex}
    groups = pf.rand_groups(rng, n) if rng.random() < 0.7 else [1] * n
    pr["grouped"] = rng.random() < 0.9 if any(g > 1 for g in groups) else rng.random() < 0.3
    if not pr["grouped"]:
        groups = [1] * n
    pr["groups"] = groups
    pr["sharing"] = bool(pr["grouped"] and rng.random() < 0.65)
    ng = len(groups)
    close = pf.rand_close(rng, shape, nan=0.15 if rng.random() < 0.3 else 0.0)
    pr["close"] = close
    full = rng.random() < 0.4
    pr["mask"] = np.full((t, ng), True) if full else rng.random((t, ng)) < 0.6
    pr["callpre"], pr["callpost"] = bool(rng.random() < 0.4), bool(rng.random() < 0.5)
    pr["ffill"], pr["upd"], pr["fillpos"] = bool(rng.random() < 0.7), bool(rng.random() < 0.4), bool(rng.random() < 0.85)
    pr["init"] = rng.choice([100, 16, 50.5, 7, 1000], size=ng if pr["sharing"] else n).astype(float)
    vset = np.full(shape, -1.0)
    if rng.random() < 0.5:
        m = rng.random(shape) < 0.5
        vset[m] = np.round(rng.uniform(1, 20, m.sum()), 2)
        if rng.random() < 0.3:
            vset[rng.random(shape) < 0.15] = np.nan
    pr["vset"] = vset
    cs = rng.choice([0, 1, 2] if pr["sharing"] else [0, 2], size=(t, ng))
    if rng.random() < 0.3:
        cs[:] = 0
    pr["cset"] = cs
    tab = np.zeros((t, n, 15))
    dirs = rng.integers(0, 3, size=n) if rng.random() < 0.5 else np.full(n, 2)
    cost = rng.random() < 0.6
    for i in range(t):
        for j in range(n):
            st = int(rng.integers(0, 6))
            v = pf.sizes_for(rng, pf.STYPES[st], shape)
            r = tab[i, j]
            r[0], r[1], r[2] = v[rng.integers(len(v))], st, dirs[j]
            r[3] = rng.choice([np.inf, np.inf, -np.inf, close[i, j] * rng.choice([1, 0.9, 1.1])])
            r[4] = rng.choice([0, 0.01, 0.25]) if cost else 0
            r[5] = rng.choice([0, 1, 0.5]) if cost else 0
            r[6] = rng.choice([0, 0.01, 0.25]) if cost else 0
            r[7] = rng.choice([0, 0, 1e-8, 1])
            r[8] = rng.choice([np.inf, np.inf, np.inf, 2, 5])
            r[9] = rng.choice([np.nan, np.nan, np.nan, 1, 0.5])
            r[10] = rng.choice([0, 0, 0, 0, 1])
            r[11], r[12] = rng.random() < 0.3, rng.random() < 0.85
            r[13] = rng.random() < 0.2
            r[14] = rng.random() < 0.7
            if rng.random() < 0.12:
                r[0] = np.nan
    pr["tab"] = tab
    K = 4
    cols = np.full((t, ng, K), -1)
    f = 0
    for g, ln in enumerate(groups):
        for i in range(t):
            for k in range(int(rng.integers(0, K + 1))):
                cols[i, g, k] = f + int(rng.integers(0, ln))
        f += ln
    pr["cols"] = cols
    # ways of passing the same: templates, a mask as a number, a row or a column, one close for all columns
    pr["blank"] = bool(rng.random() < 0.5)
    pr["style"] = [bool(rng.random() < 0.4), int(rng.integers(4))]
    if small or rng.random() < 0.25:
        k = int(rng.integers(1, 4))
        pr["mask"] = np.zeros((t, ng), dtype=bool)
        pr["mask"][::k] = True
    if rng.random() < 0.15:
        close[:] = close[:, :1]
    return pr


def every(mask):
    """The k for which the mask is active at every k-th bar."""
    for k in range(1, len(mask) + 1):
        m = np.zeros_like(mask)
        m[::k] = True
        if (m == mask).all():
            return k


def as_mask(mask, how):
    k = every(mask)
    if how == 0 and k:
        return k
    if how == 1 and mask.all() == mask.any():
        return bool(mask.all())
    if how == 2 and (mask == mask[:, :1]).all():
        return mask[:, :1].copy()
    if how == 3 and (mask == mask[:1]).all():
        return mask[:1].copy()
    return mask


def with_templates(pr, args, kw, close):
    """The same simulation with templates in the arguments of the functions, and arrays broadcast with the close."""
    pr["told"] = told = []

    def tell(buf, target_shape, group_lens, init_cash, cash_sharing, segment_mask, close, flex_2d, max_orders, call_pre_segment, wrapper):
        told.append({"shape": [int(x) for x in target_shape], "lens": [int(x) for x in group_lens], "init": nums(init_cash), "sharing": bool(cash_sharing),
                     "mask": [[bool(x) for x in r] for r in np.broadcast_to(segment_mask, (pr["t"], len(pr["groups"])))], "close": [nums(r) for r in close],
                     "flex": bool(flex_2d), "max": int(max_orders), "pre": bool(call_pre_segment), "cols": len(wrapper.columns)})
        return buf
    R = vbt.Rep
    buf, cnt = kw["pre_sim_args"]
    # two-dimensional arguments of the functions travel with the close
    named, sub = {}, {id(buf): R("buf"), id(cnt): R("cnt")}
    for x in tuple(kw["pre_segment_args"]) + tuple(args[1:]):
        if isinstance(x, np.ndarray) and x.shape == close.shape and x is not buf:
            key = "arr%d" % len(named)
            named[key] = x
            sub[id(x)] = R(key)
    swap = lambda xs: tuple(sub.get(id(x), x) for x in xs)
    kw = {k: swap(v) if k.endswith("_args") else v for k, v in kw.items()}
    kw["pre_sim_args"] = (vbt.RepFunc(tell), vbt.RepEval("cnt"))
    kw["template_mapping"] = {"buf": buf, "cnt": cnt}
    kw["broadcast_named_args"] = named
    if named and pr["style"][1] < 2 and ((close == close[:, :1]) | np.isnan(close)).all() and (np.isnan(close) == np.isnan(close[:, :1])).all():
        return pd.Series(close[:, 0]), args[:1] + swap(args[1:]), kw
    return pd.DataFrame(close, columns=["c%d" % j for j in range(pr["n"])]), args[:1] + swap(args[1:]), kw


def simulate(pr, jit=False, seed=1, auto=None):
    n, t, groups = pr["n"], pr["t"], pr["groups"]
    ng = len(groups)
    nu = len(pr["init"])
    W = HEAD + EX + 5 * nu + 19 * n
    buf = np.full((4 + 4 * t * ng + 2 * t + 2 * ng + 2 * t * ng * 5 + 2 * t * n, W), np.nan)
    cnt = np.zeros(1, dtype=np.int64)
    tab, close = np.ascontiguousarray(pr["tab"]), pr["close"]
    kw = dict(flexible=pr["flex"], row_wise=pr["row"], use_numba=jit, init_cash=pr["init"] if auto is None else auto, cash_sharing=pr["sharing"],
              segment_mask=pr["mask"] if jit else as_mask(pr["mask"], pr["style"][1]), call_pre_segment=pr["callpre"], call_post_segment=pr["callpost"],
              ffill_val_price=pr["ffill"], update_value=pr["upd"], fill_pos_record=pr["fillpos"], seed=seed, init_temp_records=pr["blank"],
              pre_sim_func_nb=pre_sim, pre_sim_args=(buf, cnt), post_sim_func_nb=post_sim, post_sim_args=(buf, cnt),
              post_segment_func_nb=post_seg, post_segment_args=(buf, cnt),
              post_order_func_nb=post_order, post_order_args=(buf, cnt), max_orders=t * n * 4 + 8, max_logs=t * n * 4 + 8)
    if pr["grouped"]:
        kw["group_by"] = np.repeat(np.arange(ng), groups)
    if pr["row"]:
        kw.update(pre_row_func_nb=pre_row, pre_row_args=(buf, cnt), post_row_func_nb=post_row, post_row_args=(buf, cnt))
    else:
        kw.update(pre_group_func_nb=pre_group, pre_group_args=(buf, cnt), post_group_func_nb=post_group, post_group_args=(buf, cnt))
    if pr["flex"]:
        kw.update(pre_segment_func_nb=pre_seg_flex, pre_segment_args=(buf, cnt, pr["vset"]))
        args = (flex_order, buf, cnt, tab, pr["cols"])
    else:
        kw.update(pre_segment_func_nb=pre_seg, call_seq=pr.get("call_seq", "default"),
                  pre_segment_args=(buf, cnt, pr["vset"], pr["cset"], np.empty(n), np.ascontiguousarray(tab[:, :, 0]),
                                    np.ascontiguousarray(tab[:, :, 1]).astype(np.int64), np.ascontiguousarray(tab[:, :, 2]).astype(np.int64)))
        args = (order, buf, cnt, tab)
    err, p = "", None
    frame = pd.DataFrame(close, columns=["c%d" % j for j in range(n)])
    if pr["style"][0] and not jit:
        frame, args, kw = with_templates(pr, args, kw, close)
    try:
        p = vbt.Portfolio.from_order_func(frame, *args, **kw)
    except ValueError as e:
        err = str(e)
    return p, buf[:cnt[0]], err


def case(pr, p, buf, err):
    n, t, groups = pr["n"], pr["t"], pr["groups"]
    to = np.cumsum(groups)
    nu = len(pr["init"])
    B = lambda a: [[bool(x) for x in r] for r in a]
    d = {"n": n, "t": t, "from": [int(x) for x in to - groups + 1], "to": [int(x) for x in to], "row": pr["row"],
         "flex": pr["flex"], "sharing": pr["sharing"], "callpre": pr["callpre"], "callpost": pr["callpost"],
         "ffill": pr["ffill"], "upd": pr["upd"], "fillpos": pr["fillpos"], "mask": B(pr["mask"]),
         "init": nums(pr["init"]), "close": [nums(r) for r in pr["close"]], "err": bool(err), "errmsg": err[:80],
         "size": [nums(r) for r in pr["tab"][:, :, 0]],
         "stype": [[pf.STYPES[int(x)] for x in r] for r in pr["tab"][:, :, 1]],
         "dir": [[pf.DIRS[int(x)] for x in r] for r in pr["tab"][:, :, 2]], "told": pr.get("told", []), "max": t * n * 4 + 8, "blank": pr["blank"]}
    ev = []
    for e in buf:
        k = KIND[int(e[0])]
        I = lambda x: int(e[x])
        s = {"k": k, "i": I(1) + 1, "g": I(2) + 1, "col": I(3), "x": I(4), "tok": I(5), "used": I(6) if pr["blank"] and k in ("preSim", "postSim") else 0}
        q = HEAD + EX
        s["u"] = [nums(e[q + 5 * u:q + 5 * u + 5]) for u in range(nu)]
        q += 5 * nu
        s["c"], s["ix"], s["rec"] = [], [], []
        for j in range(n):
            v = e[q + 19 * j:q + 19 * j + 19]
            s["c"].append(nums(v[:3]))
            s["ix"].append([int(v[3]), int(v[4])])
            if pr["fillpos"] and v[5] >= 0:
                s["rec"].append({"id": int(v[5]), "col": int(v[6]), "ei": int(v[8]) + 1, "xi": int(v[11]) + 1,
                                 "dir": ["Long", "Short"][int(v[16])], "open": int(v[17]) == 0, "pid": int(v[18]),
                                 "v": nums([v[7], v[9], v[10], v[12], v[13], v[14], v[15]])})
            else:
                s["rec"].append({"id": int(v[5])})
        x = e[HEAD:]
        if k == "preSeg":
            i, g = I(1), I(2)
            s["vset"] = ["keep" if y == -1 else num(y) for y in pr["vset"][i]]
            if not pr["flex"]:
                s["mode"] = int(x[0])
                s["seq"] = [int(y) for y in x[1:1 + groups[g]]]
        elif k == "order":
            s["o"] = [num(x[7]), pf.STYPES[int(x[8])], pf.DIRS[int(x[9])], num(x[10]), num(x[11]), num(x[12]), num(x[13]),
                      num(x[14]), num(x[15]), num(x[16]), num(x[17]), bool(x[18]), bool(x[19])]
            s["log"] = bool(x[20])
            if pr["flex"]:
                s["pick"] = int(x[21])
            else:
                s["now"] = nums(x[:7])
        elif k == "postOrder":
            s["b"] = nums(x[:6])
            s["r"] = [pf.STATUS.get(int(x[10]), "?"), pf.INFO.get(int(x[11]), "?"), pf.SIDE.get(int(x[9]), "?"), num(x[6]), num(x[7]), num(x[8])]
            s["now"] = nums(x[12:19])
        ev.append(s)
    d["ev"] = ev
    if p is not None:
        d["ord"] = [pf.order_event(r) for r in p.orders.values]
        d["logs"] = [pf.log_event(r) for r in p.logs.values]
    else:
        d["ord"], d["logs"] = [], []
    return d
