"""P03: from signals to orders.  The decision table of the specification is enumerated by TLC and replayed; random
programs (arrays and signal functions) are validated bar by bar."""
import numpy as np
from vb import main, num, nums, fl
import vb


def run(ck):
    ws = [ck.start("sims"), ck.start("sims_jit", jit=True)]
    model(ck)
    for w in ws:
        import sig
        cases = ck.join(w)
        ck.validate("FromSignalsTrace", cases, name="FromSignalsTrace " + w[0], workers=6, steps=sig.steps(cases))
    ck.sample({k: cases[0][k] for k in ("n", "t", "kind", "sharing", "auto", "acc", "opp", "bars")})


CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoStopWhenFlat ExitNeverOpens NoAccumulation TrailFollows
CONSTANTS
 What = "%(What)s"
 NB = %(NB)d
 Accs = %(Accs)s
 Confs = {"Ignore","Entry","Exit","Adjacent","Opposite"}
 SConfs = {"Ignore","Entry","Exit","Adjacent","Opposite"}
 DConfs = {"Ignore","Long","Short","Adjacent","Opposite"}
 Opps = {"Ignore","Close","CloseReduce","Reverse","ReverseReduce"}
 Sizes = {"2"}
 Shapes = %(Shapes)s
 Sls = %(Sls)s
 Tps = %(Tps)s
 Seps = %(Seps)s
 Sxps = {"StopLimit","StopMarket","Close","Price"}
 Usxs = %(Usxs)s
 Usus = %(Usus)s
 Entry = %(Entry)s
 Tight = %(Tight)s
"""
DEF = dict(What="table", NB=2, Accs='{"Disabled","Both","AddOnly","RemoveOnly"}', Shapes='{"flat"}', Sls='{"nan"}', Tps='{"nan"}',
           Seps='{"Close"}', Usxs='{"Close","CloseReduce","Reverse","ReverseReduce"}', Usus='{"Override"}', Entry="{FALSE}",
           Tight="TRUE")
SHAPE = {"flat": (8, 8, 8, 8), "up": (8, 10, 8, 10), "down": (8, 8, 6, 7), "wide": (8, 16, 4, 8), "gapup": (13, 14, 12, 12),
         "gapdn": (5, 5, 3, 4), "nohl": (8, np.nan, np.nan, 12), "nan": (np.nan, np.nan, np.nan, 6), "peak": (9, 12, 9, 9),
         "edge": (8, 10, 6, 8)}


def model_run(ck, **over):
    """One exhaustive run of SignalsMC, replayed with every behaviour as a column of one portfolio."""
    import vectorbt as vbt
    import sig
    c = dict(DEF, **over)
    r = ck.model("SignalsMC", CFG % c, name="SignalsMC %s %d bars #%d" % (c["What"], c["NB"], len(ck.parts)), workers=6)
    out = r.out
    nb, n = c["NB"], len(out)
    sh = np.array([[SHAPE[b[1][i]] for b in out] for i in range(nb)], dtype=float)

    def two(first, rest, dt):
        a = np.empty((nb, n), dtype=dt)
        a[0], a[1:] = first, rest
        return a

    def const(k, names):
        return np.tile(np.array([names.index(b[0][k]) for b in out], dtype=np.int64), (nb, 1))

    def fconst(k):
        return np.tile(np.array([fl(b[0][k]) for b in out], dtype=float), (nb, 1))
    bits = np.array([b[0]["b"] for b in out], dtype=bool)
    first = np.array([b[0]["first"] for b in out])
    acc = np.array([sig.ACC.index(b[0]["acc"]) for b in out])
    args = dict(
        close=np.ascontiguousarray(sh[:, :, 3]), entries=two(first == "long", bits[:, 0], bool), exits=two(False, bits[:, 1], bool),
        short_entries=two(first == "short", bits[:, 2], bool), short_exits=two(False, bits[:, 3], bool),
        size=two(4.0, np.array([fl(b[0]["size"]) for b in out]), float), accumulate=two(0, acc, np.int64),
        upon_long_conflict=const("lconf", sig.CONF), upon_short_conflict=const("sconf", sig.CONF),
        upon_dir_conflict=const("dconf", sig.DCONF), upon_opposite_entry=const("opp", sig.OPP), slippage=0.25, min_size=0.0,
        open=np.ascontiguousarray(sh[:, :, 0]), high=np.ascontiguousarray(sh[:, :, 1]), low=np.ascontiguousarray(sh[:, :, 2]),
        sl_stop=fconst("sl"), sl_trail=np.tile(np.array([b[0]["trail"] for b in out]), (nb, 1)), tp_stop=fconst("tp"),
        stop_entry_price=const("sep", sig.SEP), stop_exit_price=const("sxp", sig.SXP), upon_stop_exit=const("usx", sig.USX),
        upon_stop_update=const("usu", sig.USU), use_stops=True, init_cash=100.0)
    from numba import njit

    @njit
    def keep_stop_nb(c):
        return c.curr_stop, c.curr_trail

    # the simulator for plain arrays, and the one that calls functions
    for how, kw in (("arrays", {}), ("functions", dict(adjust_sl_func_nb=keep_stop_nb))):
        p = vbt.Portfolio.from_signals(**args, **kw)
        by = [[] for _ in range(n)]
        for x in p.orders.values:
            by[x["col"]].append(x)
        for k, b in enumerate(out):
            want, got = b[2], by[k]
            ok = len(want) == len(got) and all(
                int(g["idx"]) == w[0] and ("Buy" if g["side"] == 0 else "Sell") == w[1] and vb.same(g["size"], fl(w[2]))
                and vb.same(g["price"], fl(w[3])) for g, w in zip(got, want))
            ck.expect(ok, "the simulation behaves as the model", lambda: {"how": how, "program": b, "got": [str(g) for g in got]}, part="SignalsMC")
        ck.traces += n
    ck.sample(out[n // 2])


def model(ck):
    if ck.thorough:
        model_run(ck, Tight="FALSE")
    else:
        model_run(ck)
    defaults(ck)


def defaults(ck):
    """Ways of passing signals that mean the same, and invalid ones."""
    import vectorbt as vbt
    import pandas as pd
    close = pd.Series([1.0, 2, 3, 4, 5])
    en = pd.Series([True, False, False, True, False])
    ex = pd.Series([False, True, False, False, True])
    f = vbt.Portfolio.from_signals

    def orders(**kw):
        return [tuple(x) for x in f(close, size=1.0, **kw).orders.values[["idx", "size", "price", "side"]]]
    same = [
        ("no signals: enter at the first bar", dict(), dict(entries=[True] * 5, exits=False)),
        ("only exits: never enters", dict(exits=ex), dict(entries=False, exits=ex)),
        ("accumulate=True is both", dict(entries=en, exits=ex, accumulate=True), dict(entries=en, exits=ex, accumulate="both")),
        ("long only", dict(entries=en, exits=ex, direction="longonly"), dict(entries=en, exits=ex, short_entries=False)),
        ("short only", dict(entries=en, exits=ex, direction="shortonly"),
         dict(entries=False, exits=False, short_entries=en, short_exits=ex)),
        ("both", dict(entries=en, exits=ex, direction="both"), dict(entries=en, short_entries=ex)),
        ("holding", None, None)]
    for what, a, b in same[:-1]:
        ck.expect(orders(**a) == orders(**b), "equal ways of passing signals give equal orders", {"what": what})
    h = vbt.Portfolio.from_holding(close, size=1.0).orders.values
    ck.expect([(int(x["idx"]), float(x["size"]), int(x["side"])) for x in h] == [(0, 1.0, 0)], "holding buys once", {"got": str(h)})
    for kw in (dict(size=-1.0), dict(size=1.0, size_type="targetamount"), dict(size=1.0, size_type="targetpercent"),
               dict(size=0.5, size_type="percent", entries=en, exits=ex, direction="both"), dict(n=1, prob=0.5), dict(n=1, entry_prob=0.5),
               dict(entry_prob=0.5), dict(exit_prob=0.5), dict(random=True)):
        g = vbt.Portfolio.from_random_signals if {"n", "entry_prob", "exit_prob", "random"} & set(kw) else f
        kw.pop("random", None)
        try:
            g(close, **kw)
            ck.violation("unsupported sizes are refused", {"kw": str(kw)})
        except ValueError:
            pass


def simulate(ck, vbt, rng, kw, full, jit):
    """From signals, or from holding or random signals: what is simulated then are the signals those stand for."""
    if jit or full["kind"] != "dir" or rng.random() < 0.6:
        return vbt.Portfolio.from_signals(**kw)
    kw = {k: v for k, v in kw.items() if k not in ("entries", "exits")}
    t, n = full["shape"]
    if rng.random() < 0.4:
        full["en"], full["ex"] = np.full((t, n), True), np.full((t, n), False)
        return vbt.Portfolio.from_holding(**kw)
    seen = []

    class Pf(vbt.Portfolio):
        @classmethod
        def from_signals(cls, close, entries=None, exits=None, **kwargs):
            seen.append((np.array(entries), np.array(exits)))
            return super().from_signals(close, entries, exits, **kwargs)
    kw["seed"] = int(rng.integers(100))
    if rng.random() < 0.5:
        k = int(rng.integers(0, t // 2 + 1))
        p = Pf.from_random_signals(n=k, **kw)
        ok = (seen[0][0].sum(axis=0) == k).all() and (seen[0][1].sum(axis=0) == k).all()
    else:
        a, b = [(0.0, 1.0, 0.5)[int(i)] for i in rng.integers(0, 3, 2)]
        how = int(rng.integers(3))
        pr = dict(prob=a) if how == 0 else dict(entry_prob=a, exit_prob=b) if how == 1 else dict(prob=b, entry_prob=a)
        if how == 0:
            b = a
        p = Pf.from_random_signals(**pr, **kw)
        i = np.arange(t)[:, None]
        want = [np.broadcast_to(m, (t, n)) for m in ((i % 2 == 0), (i % 2 == 1))] if a == b == 1 else \
            [np.broadcast_to(m, (t, n)) for m in ((i == 0), (i < 0))] if a == 1 and b == 0 else [np.zeros((t, n), dtype=bool)] * 2 if a == 0 else None
        ok = want is None or all((x == y).all() for x, y in zip(seen[0], want))
        ok = ok and (seen[0][0].sum(axis=0) - seen[0][1].sum(axis=0)).max() <= 1
    ck.expect(bool(ok), "random signals as many and as probable as asked for", {"seen": str(seen[0])})
    full["en"], full["ex"] = seen[0]
    return p


def sims(ck, jit=False, stops=False):
    import vectorbt as vbt
    import sig
    rng = np.random.default_rng(ck.seed + (11 if jit else 3))
    cases = []
    for q in range((4000 if jit else 3000) if ck.thorough else (450 if jit else 350)):
        kw, full = sig.rand_signals(rng, stops, t=int(rng.integers(2, 10)), n=int(rng.integers(2, 5))) if jit \
            else sig.rand_signals(rng, stops, func=q % 3 == 0)
        calls, adjsl, adjtp = None, False, False
        if full["kind"] == "func":
            adjsl, adjtp = stops and rng.random() < 0.7, stops and rng.random() < 0.7
            calls, f, a, b = sig.callbacks(rng, full, adjsl, adjtp)
            kw["signal_func_nb"] = f
            if adjsl:
                kw["adjust_sl_func_nb"] = a
            if adjtp:
                kw["adjust_tp_func_nb"] = b
            if rng.random() < 0.5:
                sig.with_templates(rng, kw, full)
        if jit:
            kw = sig.uniform(kw, full)
        try:
            p = simulate(ck, vbt, rng, kw, full, jit)
        except Exception as e:
            ck.violation("simulation of valid signals raised", {"exc": repr(e), "kw": str(kw)})
            continue
        cases.append(sig.case(kw, full, p, calls, bool(adjsl), bool(adjtp)))
    return cases


def sims_jit(ck):
    return sims(ck, True)


if __name__ == "__main__":
    main("P03", run, workers={"sims": sims, "sims_jit": sims_jit})
