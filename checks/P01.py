"""P01: order execution.  TLC enumerates the account's transitions (OrderExecMC) and each one is replayed into the
real order execution; orders recorded from random simulations are validated by OrderTrace."""
import numpy as np
from vb import main, num, nums, fl, same
import vb


def run(ck):
    import vectorbt as vbt
    from vectorbt.portfolio import nb
    from vectorbt.portfolio.enums import ProcessOrderState
    import pf

    ws = [ck.start("sims"), ck.start("sims_jit", jit=True)]

    # ---- 1. every transition of the model, replayed
    if ck.thorough:
        runs = [("1", '{"1","3","-2","inf","-inf","1/2","-1/2","0","2","-3","nan"}', ALL, '{"2","4","5"}', STARTS),
                ("2", '{"1","-2","inf","-inf"}', '{"plain","lock","feeslock","granfees"}', '{"2","4"}', '{"flat"}')]
    else:
        runs = [("1", '{"1","3","-2","inf","-inf","1/2","-1/2","0"}', ALL, '{"2","4"}', STARTS)]
    n = 0
    for depth, sizes, profiles, prices, starts in runs:
        r = ck.model("OrderExecMC", CFG % (depth, sizes, profiles, prices, starts), name="OrderExecMC depth " + depth,
                     workers=6, min_states=100)
        for st, o, oc in r.out:
            n += 1
            replay(ck, nb, ProcessOrderState, st, o, oc)
        seen = {(x[2]["s"], x[2]["why"]) for x in r.out}
        ck.parts["OrderExecMC depth " + depth]["outcome_kinds"] = len(seen)
        ck.sample({"state": r.out[7][0], "order": r.out[7][1], "outcome": r.out[7][2]})
        r.out = None
    ck.traces += n
    ck.parts["replayed transitions"] = n

    # ---- 2. orders recorded from simulations
    for w in ws:
        cases = ck.join(w)
        ck.validate("OrderTrace", cases, name="OrderTrace " + w[0], steps=sum(len(c["ev"]) + 1 for c in cases))
    ck.sample(cases[0]["ev"][0])

    # ---- 3. process_order: invalid input raises, rejection raises on request, nothing is recorded twice
    base = dict(size=1.0, price=2.0)
    bad = [dict(price=0.0), dict(price=-1.0), dict(price=np.inf), dict(fees=np.inf), dict(fees=np.nan),
           dict(fixed_fees=np.nan), dict(fixed_fees=np.inf), dict(slippage=-0.1), dict(slippage=np.inf),
           dict(min_size=-1.0), dict(min_size=np.inf), dict(max_size=0.0), dict(max_size=-1.0), dict(max_size=np.nan),
           dict(size_granularity=0.0), dict(size_granularity=np.inf), dict(size_granularity=-1.0),
           dict(reject_prob=-0.1), dict(reject_prob=1.1), dict(reject_prob=np.nan), dict(size_type=6), dict(size_type=-1),
           dict(direction=3), dict(direction=-1)]
    st = ProcessOrderState(cash=100.0, position=0.0, debt=0.0, free_cash=100.0, val_price=2.0, value=100.0, oidx=0, lidx=0)
    for b in bad:
        try:
            nb.execute_order_nb(st, nb.order_nb(**dict(base, **b)))
            ck.violation("invalid order accepted", {"order": str(b)})
        except ValueError:
            pass
    for s in (dict(cash=-1.0), dict(cash=np.nan), dict(position=np.inf), dict(position=np.nan), dict(debt=-1.0), dict(debt=np.nan),
              dict(free_cash=np.nan)):
        try:
            nb.execute_order_nb(st._replace(**s), nb.order_nb(**base))
            ck.violation("invalid account accepted", {"state": str(s)})
        except ValueError:
            pass


def sims(ck):
    """Random simulations (interpreted: every way of passing options)."""
    import vectorbt as vbt
    import pf
    from vectorbt.portfolio.enums import RejectedOrderError
    rng = np.random.default_rng(ck.seed)
    cases = []
    for q in range(4000 if ck.thorough else 350):
        kw, full = pf.rand_orders_kwargs(rng)
        try:
            p = vbt.Portfolio.from_orders(**kw)
        except Exception as e:
            ck.violation("simulation of valid orders raised", {"exc": repr(e), "kw": str(kw)})
            continue
        cases.append({"ex": False, "ev": [pf.log_event(r) for r in p.logs.values]})
    # raise_reject turns a rejection, and only a rejection, into an error
    from vectorbt.portfolio.enums import RejectedOrderError
    cnt = 0
    for q in range(1500 if ck.thorough else 150):
        kw, full = pf.rand_orders_kwargs(rng, t=int(rng.integers(1, 4)))
        kw["reject_prob"] = 0.0
        p = vbt.Portfolio.from_orders(**kw)
        rej = bool((p.logs.values["res_status"] == 2).any())
        try:
            p2 = vbt.Portfolio.from_orders(**dict(kw, raise_reject=True))
            raised = False
        except RejectedOrderError:
            raised = True
        ck.expect(raised == rej, "a rejected order raises exactly when asked to", {"kw": str(kw), "rejected": rej})
        if not raised:
            ck.expect((p2.orders.values == p.orders.values).all(), "raising on rejection changes nothing else", {"kw": str(kw)})
        p3 = vbt.Portfolio.from_orders(**dict(kw, log=False))
        ck.expect(len(p3.orders.values) == len(p.orders.values) and (p3.orders.values == p.orders.values).all(),
                  "logging does not change what is executed", {"kw": str(kw)})
        cnt += rej
    ck.parts["raise_reject runs with a rejection"] = cnt

    return cases


def sims_jit(ck):
    """Random simulations through the compiled code (every option a full array: one signature)."""
    import vectorbt as vbt
    import pf
    rng = np.random.default_rng(ck.seed + 1)
    cases = []
    for q in range(6000 if ck.thorough else 500):
        kw, full = pf.rand_orders_kwargs(rng, t=int(rng.integers(2, 9)), n=int(rng.integers(2, 5)))
        kw = pf.uniform(kw, full)
        try:
            p = vbt.Portfolio.from_orders(**kw)
        except Exception as e:
            ck.violation("simulation of valid orders raised", {"exc": repr(e), "kw": str(kw)})
            continue
        cases.append({"ex": False, "ev": [pf.log_event(r) for r in p.logs.values]})
    return cases


ALL = ('{"plain","lock","fees","feeslock","slip","sliplock","min","max","maxall","all","alllock","gran","granfees",'
       '"granlock","granall","minmax","bigfix","rebate","mixed"}')
STARTS = '{"flat","long","short","deep","over","broke","locked"}'
CFG = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS CashNeverNegative DebtIffShort FreeNeverAboveCash
PROPERTY FreeCashLaw
CONSTANTS
 Depth = %s
 Sizes = %s
 STypes = {"Amount","Value","Percent","TargetAmount","TargetValue","TargetPercent"}
 Dirs = {"LongOnly","ShortOnly","Both"}
 Profiles = %s
 Prices = %s
 Starts = %s
'''


def replay(ck, nb, State, st, o, oc):
    import pf
    s = [fl(x) for x in st]
    state = State(cash=s[0], position=s[1], debt=s[2], free_cash=s[3], val_price=s[4], value=s[5], oidx=0, lidx=0)
    order = nb.order_nb(
        size=fl(o["size"]), price=fl(o["price"]), size_type=pf.STYPES.index(o["stype"]), direction=pf.DIRS.index(o["dir"]),
        fees=fl(o["fees"]), fixed_fees=fl(o["ffees"]), slippage=fl(o["slip"]), min_size=fl(o["minsz"]),
        max_size=fl(o["maxsz"]), size_granularity=fl(o["gran"]), reject_prob=fl(o["rp"]), lock_cash=o["lock"],
        allow_partial=o["partial"])
    try:
        ns, res = nb.execute_order_nb(state, order)
        got = {"s": pf.STATUS.get(res.status), "why": pf.INFO.get(res.status_info), "side": pf.SIDE.get(res.side),
               "size": res.size, "price": res.price, "fees": res.fees,
               "cash": ns.cash, "pos": ns.position, "debt": ns.debt, "free": ns.free_cash}
    except ValueError as e:
        got = {"s": "Error", "why": str(e)}
    except Exception as e:
        got = {"s": "Crash", "why": repr(e)}
    ok = got["s"] == oc["s"]
    if ok and oc["s"] != "Error":
        ok = got["why"] == oc["why"] and got["side"] == oc["side"] and all(
            same(got[f], fl(oc[f])) for f in ("size", "price", "fees", "cash", "pos", "debt", "free"))
    if not ok:
        ck.violation("replayed order outcome differs from the specification",
                     {"state": st, "order": o, "specified": oc, "got": {k: str(v) for k, v in got.items()}})


main("P01", run, workers={"sims": sims, "sims_jit": sims_jit})
