"""P02: simulation from order arrays.  Random programs are simulated by the real library with logging on; TLC walks the
FromOrders specification through every recorded request."""
import numpy as np
from vb import main, num, nums, fl
import vb


def run(ck):
    ws = [ck.start("sims"), ck.start("sims_jit", jit=True)]
    model(ck)
    for w in ws:
        cases = ck.join(w)
        ck.validate("FromOrdersTrace", cases, name="FromOrdersTrace " + w[0], workers=6,
                    steps=sum(len(c["ev"]) + 2 for c in cases))
    ck.sample(cases[0]["ev"][0])
    ck.sample({k: cases[0][k] for k in ("n", "t", "from", "to", "sharing", "auto", "ffill", "upd", "init")})


CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS CashOK DebtIffShort CashIsFlow FreeCash
CONSTANTS
 NB = %d
 Cat = {%s}
 Modes = {"own","auto","prev","rev","fwd"}
"""
RQ = {"buy": (2, 0, 2, False, np.inf), "all": (np.inf, 0, 0, False, np.inf), "sell": (-2, 0, 2, False, np.inf),
      "short": (1, 2, 1, True, np.inf), "half": (0.5, 5, 2, False, np.inf), "none": (0, 5, 2, False, np.inf),
      "val": (-8, 4, 2, True, -np.inf), "nan": (np.nan, 0, 2, False, np.inf), "pct": (-0.5, 2, 2, False, 8.0)}
PX = np.array([[4, 2], [8, 4], [2, 8]], dtype=float)
MODES = {"own": dict(), "auto": dict(cash_sharing=True, call_seq="auto"),
         "prev": dict(cash_sharing=True, call_seq="auto", val_price=4.0, fees=0.125),
         "rev": dict(cash_sharing=True, call_seq="reversed", val_price=-np.inf, update_value=True),
         "fwd": dict(cash_sharing=True, fees=0.125, update_value=True)}


def model(ck):
    """Every small program of the model, replayed: all programs of a mode side by side in one portfolio."""
    import vectorbt as vbt
    for nb, cat in (((2, ALL), (3, ("all", "short", "half", "sell"))) if ck.thorough else ((2, ALL[:6]),)):
        r = ck.model("FromOrdersMC", CFG % (nb, ",".join('"%s"' % c for c in cat)), name="FromOrdersMC %d bars" % nb, workers=6)
        bad = 0
        for mode, opts in MODES.items():
            progs = [b for b in r.out if b[1] == mode]
            errs = [b for b in progs if ["error"] in b[2]]
            progs = [b for b in progs if ["error"] not in b[2]]
            bad += len(errs)
            cols = [[RQ[b[0][i][c]] for b in progs for c in range(2)] for i in range(nb)]
            f = lambda k, dt: np.array([[x[k] for x in row] for row in cols], dtype=dt)
            p = vbt.Portfolio.from_orders(np.tile(PX[:nb], (1, len(progs))), size=f(0, float), size_type=f(1, int),
                                          direction=f(2, int), lock_cash=f(3, bool), price=f(4, float), init_cash=16.0,
                                          min_size=0.0, group_by=np.repeat(np.arange(len(progs)), 2), **opts)
            rec = p.orders.values
            by = {}
            for x in rec[np.argsort(rec["id"], kind="stable")]:
                by.setdefault(int(x["col"]) // 2, []).append(x)
            pos = p.assets().values[-1]
            for k, b in enumerate(progs):
                got = by.get(k, [])
                want = b[2]
                ok = len(got) == len(want) and all(
                    int(g["idx"]) == w[0] and int(g["col"]) % 2 == w[1] and "%s" % ("Buy" if g["side"] == 0 else "Sell") == w[2]
                    and vb.same(g["size"], fl(w[3])) and vb.same(g["price"], fl(w[4])) and vb.same(g["fees"], fl(w[5]))
                    for g, w in zip(got, want))
                ok = ok and all(vb.same(pos[2 * k + c], fl(b[4][c])) for c in range(2))
                ck.expect(ok, "the simulation behaves as the model", lambda: {"program": b, "got": [str(g) for g in got]},
                          part="FromOrdersMC")
            ck.traces += len(progs)
            # programs the model says are invalid must be refused
            for b in errs[:6]:
                x = [[RQ[b[0][i][c]] for c in range(2)] for i in range(nb)]
                g = lambda k, dt: np.array([[y[k] for y in row] for row in x], dtype=dt)
                try:
                    vbt.Portfolio.from_orders(PX[:nb], size=g(0, float), size_type=g(1, int), direction=g(2, int),
                                              lock_cash=g(3, bool), price=g(4, float), init_cash=16.0, min_size=0.0,
                                              group_by=[0, 0], **opts)
                    ck.violation("an invalid order is refused", {"program": b}, part="FromOrdersMC")
                except ValueError:
                    pass
        ck.parts["FromOrdersMC %d bars" % nb]["refused"] = bad
        ck.sample(r.out[len(r.out) // 2])


ALL = ("all", "short", "half", "sell", "val", "pct", "nan", "buy", "none")


def tab(a):
    return [nums(r) for r in np.asarray(a, dtype=float)]


def case(kw, full, p):
    import pf
    t, n = full["shape"]
    glens = full["glens"]
    to = np.cumsum(glens)
    d = {"n": n, "t": t, "from": [int(x) for x in to - glens + 1], "to": [int(x) for x in to],
         "sharing": bool(kw.get("cash_sharing", False)), "auto": full["cs"] == "auto",
         "ffill": kw["ffill_val_price"], "upd": kw["update_value"], "init": nums(full["init_cash"]),
         "close": tab(full["close"]), "size": tab(full["size"]), "price": tab(full["price"]), "vp": tab(full["val_price"]),
         "stype": [[pf.STYPES[int(x)] for x in r] for r in full["size_type"]],
         "dir": [[pf.DIRS[int(x)] for x in r] for r in full["direction"]],
         "fees": tab(full["fees"]), "ffees": tab(full["fixed_fees"]), "slip": tab(full["slippage"]),
         "minsz": tab(full["min_size"]), "maxsz": tab(full["max_size"]), "gran": tab(full["size_granularity"]),
         "rp": tab(full["reject_prob"]),
         "lock": [[bool(x) for x in r] for r in full["lock_cash"]],
         "partial": [[bool(x) for x in r] for r in full["allow_partial"]],
         "seq": [], "ev": [pf.log_event(r) for r in p.logs.values], "ord": [pf.order_event(r) for r in p.orders.values]}
    if d["sharing"] and not d["auto"]:
        if full["cs"] == "default":
            s = np.concatenate([np.arange(g) for g in glens])
            s = np.broadcast_to(s, (t, n))
        elif full["cs"] == "reversed":
            s = np.concatenate([np.arange(g)[::-1] for g in glens])
            s = np.broadcast_to(s, (t, n))
        elif full["cs"] == "array":
            s = full["call_seq"]
        else:
            s = np.asarray(p.call_seq)
        d["seq"] = [[int(x) for x in r] for r in s]
    return d


def by_execution(evs):
    return sorted(evs, key=lambda e: e["id"])


def sims(ck, jit=False):
    import vectorbt as vbt
    import pf
    rng = np.random.default_rng(ck.seed + (7 if jit else 0))
    cases = []
    for q in range((4000 if jit else 3000) if ck.thorough else (400 if jit else 300)):
        kw, full = pf.rand_orders_kwargs(rng, t=int(rng.integers(2, 9)), n=int(rng.integers(2, 5))) if jit or q % 3 \
            else pf.rand_orders_kwargs(rng)
        if full["cs"] in ("random",):
            kw["attach_call_seq"] = True
        if jit:
            kw = pf.uniform(kw, full)
        call_in = None if full["cs"] != "array" else full["call_seq"].copy()
        try:
            p = vbt.Portfolio.from_orders(**kw)
        except Exception as e:
            ck.violation("simulation of valid orders raised", {"exc": repr(e), "kw": str(kw)})
            continue
        if full["cs"] == "random":
            s = np.asarray(p.call_seq)
            f = 0
            ok = True
            for g in full["glens"]:
                ok = ok and all(sorted(r) == list(range(g)) for r in s[:, f:f + g])
                f += g
            if not ck.expect(ok or not kw["cash_sharing"], "a random call sequence is a permutation of each group", {"seq": s.tolist()}):
                continue
        if call_in is not None:
            ck.expect((call_in == full["call_seq"]).all(), "the given call sequence is not modified", {"kw": str(kw)})
        c = case(kw, full, p)
        # order and log records of a group-and-bar loop: sort key is their id
        c["ev"] = by_execution(c["ev"])
        c["ord"] = by_execution(c["ord"])
        cases.append(c)
    return cases


def sims_jit(ck):
    return sims(ck, True)


if __name__ == "__main__":
    main("P02", run, workers={"sims": sims, "sims_jit": sims_jit})
