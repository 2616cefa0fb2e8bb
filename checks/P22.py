"""P22: data of several symbols: alignment and updates."""
import json, os, warnings
import numpy as np
from vb import main

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OneShape OwnCells Stays
CONSTANTS
 Rows0 = {%s}
 Rows1 = {%s}
 MaxUpd = %d
 ColSets = "%s"
"""


def run(ck):
    w = ck.start("histories")
    todo = []
    for name, r0, r1, n, cs in (("rows", "0, 1, 2", "1, 2, 3, 4" if ck.thorough else "1, 2, 3", 1, "one"), ("columns", "0, 1", "1, 2", 1, "many"), ("updates", "0, 1", "1, 2, 3" if ck.thorough else "1, 2", 2, "one")):
        r = ck.model("DataMC", CFG % (r0, r1, n, cs), name="DataMC " + name, workers=6)
        rng = np.random.default_rng(ck.seed)
        keep = [r.out[i] for i in rng.permutation(len(r.out))[:15000 if ck.thorough else 1200]]
        f = os.path.join(ck.scratch, name + ".json")
        json.dump(keep, open(f, "w"))
        todo.append(ck.start("replay_" + name, arg=f))
        ck.sample(keep[0])
    cases = ck.join(w)
    ck.validate("DataTrace", cases, workers=6, done=True)
    ck.sample(cases[0]["ops"][:2])
    for q in todo:
        ck.traces += ck.join(q) or 0


def replay(ck):
    import dt
    warnings.simplefilter("ignore")
    todo = json.load(open(ck.worker_arg))
    for n, b in enumerate(todo):
        kind, tz = (("int", None), ("date", None), ("date", "UTC"))[n % 3]
        d, got = None, []
        for h in b["hist"]:
            dt.Source.feed = {"s%d" % i: dt.table(t, kind, tz) for i, t in enumerate(h["fetched"])}
            try:
                if d is None:
                    d = dt.Source.download(list(dt.Source.feed), missing_index=b["mi"], missing_columns=b["mc"])
                else:
                    d = d.update()
                got.append([True, dt.state(d)])
            except (ValueError, KeyError, IndexError) as e:
                got.append([False, []])
                break
        ck.expect(got == [[h["ok"], h["after"]] for h in b["hist"]], "symbols are aligned and updates merged as the model says", {"b": b, "got": got, "kind": kind}, part="DataMC")
    return len(todo)


def histories(ck):
    import dt, pandas as pd
    import vectorbt as vbt
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 22)
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    cases = []
    for _ in range(4000 if ck.thorough else 700):
        kind = c("int", "date", "naive", "tz")
        shift = 2 if kind == "naive" else 0
        nsym = c(1, 1, 2, 2, 3)
        syms = ["s%d" % i for i in range(nsym)]
        mi, mc = c("nan", "nan", "drop", "raise"), c("nan", "drop", "raise")
        same = rng.random() < 0.5
        shape = c("noname", "series", "mix", "frame", "frame")
        gen = [0]
        names = [c(1, 1, 1, 2) for _ in syms]
        if shape != "series":
            names = [names[0]] * nsym

        def tab(i, lo, hi, cols0=None):
            ls = sorted(int(x) for x in rng.choice(range(lo, hi), size=int(rng.integers(0 if rng.random() < 0.1 else 1, hi - lo + 1)), replace=False))
            if same:
                ls = list(range(lo, hi - 1))
            if shape == "noname":
                k, cols = "series", [-1]
            elif shape == "series":
                k, cols = "series", [names[i]]
            elif shape == "mix" and rng.random() < 0.5:
                k, cols = "series", [names[i]]
            else:
                k, cols = "frame", [int(x) for x in rng.permutation(4)[:int(rng.integers(1, 5))] + 1]
                if cols0 and rng.random() < 0.9:
                    cols = [int(x) for x in rng.permutation(cols0)] if rng.random() < 0.3 else list(cols0)
            gen[0] += 1
            miss = rng.random() < 0.3
            return {"kind": k, "cols": cols, "idx": [x for x in ls],
                    "rows": [[-1 if miss and rng.random() < 0.2 else (i + 1) * 10 ** 6 + gen[0] * 10 ** 4 + x * 10 + cc for cc in cols] for x in ls]}

        def pdt(t):
            if kind == "int":
                return dt.table(t)
            # "naive" labels are local times two hours ahead of UTC; "tz" ones carry one zone or another
            z = {"date": None, "naive": None, "tz": c("UTC", "Etc/GMT-3")}[kind]
            if z == "Etc/GMT-3":
                x = dt.table(t, "date", "UTC")
                return x.tz_convert(z)
            return dt.table(t, "date", z)
        kw = {"naive": dict(tz_localize="Etc/GMT-2", tz_convert=c(None, "America/New_York")), "tz": dict(tz_convert=c("UTC", "Europe/Berlin"))}.get(kind, {})
        top = 5
        cols0 = [1, 2, 3][:c(1, 2, 3)] if rng.random() < 0.6 else None
        if shape == "mix" and not (nsym > 1):
            shape = "frame"
        first = [tab(i, 0, top, cols0) for i in range(nsym)]
        dt.Source.feed = {s: pdt(t) for s, t in zip(syms, first)}
        ops = []
        how = c("download", "from_data", "own", "array" if kind == "int" and shape in ("noname", "frame") else "download", "made" if kind == "tz" else "download")
        d = None
        n = c(0, 1, 2) if shape != "noname" else 0
        offs = {s: 10 ** 6 * (i + 1) for i, s in enumerate(syms)}
        hour = lambda h: dt.EPOCH.tz_localize("UTC") + pd.Timedelta(hours=h)
        given = lambda f: {"given": vbt.symbol_dict({s: pdt(t) for s, t in zip(syms, f)})}

        def bare(i, lo, hi, cols):
            """An array: rows are numbered on."""
            t = tab(i, lo, hi)
            t.update(idx=list(range(lo, hi)), kind="series" if shape == "noname" else "frame", cols=cols)
            t["rows"] = [[(i + 1) * 10 ** 6 + gen[0] * 10 ** 4 + x * 10 + cc for cc in cols] for x in t["idx"]]
            return t
        array = lambda t: np.array(t["rows"], dtype=float) if t["kind"] == "frame" else np.array(t["rows"], dtype=float)[:, 0]
        cfg = dict(missing_index=mi, missing_columns=mc)
        conf = vbt.settings["data"]
        old = {k: conf[k] for k in cfg}
        if c(0, 0, 1):          # from the settings
            for k, v in cfg.items():
                conf[k] = v
            cfg = {}
        try:
            if how == "made":
                a, b = sorted(int(x) for x in rng.integers(0, top, 2))
                first = [dt.made(offs[s], n, a, b) for s in syms]
                kw = {"tz_convert": kw["tz_convert"]}
                d = dt.Made.download(syms if nsym > 1 or c(0, 1) else syms[0], start=hour(a), end=hour(b), freq="1h", off=vbt.symbol_dict(offs), n=n, **cfg, **kw)
            elif how == "array":
                cols1 = [-1] if shape == "noname" else list(range(c(1, 2, 3)))
                first = [bare(i, 0, c(1, 3, 3, 4), cols1) for i in range(nsym)]
                d = dt.Source.from_data({s: array(t) for s, t in zip(syms, first)}, download_kwargs={}, **cfg)
            elif how == "own":
                dt.Source.feed = {}
                d = dt.Source.download(syms, **cfg, **kw, **given(first))
            elif how == "download":
                d = dt.Source.download(syms if nsym > 1 or c(0, 1) else syms[0], **cfg, **kw)
            else:
                d = dt.Source.from_data(dt.Source.feed, download_kwargs={}, **cfg, **kw)
            ops.append({"op": "from", "fetched": first, "ok": True, "after": dt.state(d), "before": []})
        except (ValueError, KeyError, IndexError):
            ops.append({"op": "from", "fetched": first, "ok": False, "after": [], "before": []})
        for k, v in old.items():
            conf[k] = v
        if d is not None and kw:
            zone = kw.get("tz_convert") or conf["tz_convert"] or kw.get("tz_localize")
            gap = [dt.EPOCH.tz_localize(z).utcoffset() for z in (d.wrapper.index.tz, zone)]
            ck.expect(gap[0] == gap[1], "times in the zone asked for", {"got": str(d.wrapper.index.tz), "want": zone}, part="DataTrace")
        for _ in range(int(rng.integers(1, 7)) if d is not None else 0):
            before = dt.state(d)
            nr, nc = len(before[0]["idx"]), len(before[0]["cols"])
            u = rng.random()
            if u < 0.5:
                lo = max(0, top - c(1, 2, 4))
                hi = lo + c(2, 3, 5)
                top = max(top, hi)
                more = {}
                if how == "made" and before[0]["kind"] == ("frame" if n else "series") and nr:
                    last = before[0]["idx"][-1]
                    top = max(top, last + c(0, 1, 3))
                    if c(0, 1):
                        offs = {s: v + 10 ** 5 * c(0, 1) for s, v in offs.items()}
                        more["off"] = vbt.symbol_dict(offs)
                    else:
                        offs = {s: 10 ** 6 * (i + 1) for i, s in enumerate(syms)}
                    more["end"] = hour(top)
                    f = [dt.made(offs[s], n, last, top) for s in syms]
                elif how == "made":
                    break
                elif how == "array":
                    if not nr or before[0]["kind"] == "series" and shape == "frame":
                        break
                    last = before[0]["idx"][-1]
                    f = [bare(i, last, last + c(1, 2, 3), cols1) for i in range(nsym)]
                    dt.Source.feed = {s: array(t) for s, t in zip(syms, f)}
                else:
                    f = [tab(i, lo, hi, before[0]["cols"] if before[0]["kind"] == "frame" else cols0) for i in range(nsym)]
                    if how == "own":
                        more = given(f)
                    else:
                        dt.Source.feed = {s: pdt(t) for s, t in zip(syms, f)}
                o = {"op": "update", "fetched": f, "ok": True}
                new = d
                try:
                    new = d.update(**more)
                    o["after"] = dt.state(new)
                except (ValueError, KeyError, IndexError):
                    o["ok"], o["after"] = False, []
                o["before"] = dt.state(d)
                d = new
                ops.append(o)
            elif nc == 0:
                break
            elif u < 0.7 and nr:
                o = {"op": "index", "keep": bool(rng.random() < 0.3), "cols": list(range(1, nc + 1)), "kind": before[0]["kind"]}
                v = c("iloc", "loc", "ilocl", "locmask", "col", "cols")
                a, b = sorted(int(x) for x in rng.integers(0, nr + 1, 2))
                if v in ("col", "cols") and (o["kind"] == "series" or nr < 2) or a == b and v in ("iloc", "loc"):
                    continue
                if v == "iloc":
                    e, o["rows"] = d.iloc[a:b], list(range(a + 1, b + 1))
                elif v == "loc":
                    if before[0]["idx"] != sorted(before[0]["idx"]):
                        continue
                    e, o["rows"] = d.loc[d.wrapper.index[a]:d.wrapper.index[b - 1]], list(range(a + 1, b + 1))
                elif v == "ilocl":
                    p = sorted(int(x) for x in rng.choice(nr, size=int(rng.integers(1, nr + 1)), replace=False))
                    e, o["rows"] = d.iloc[p], [x + 1 for x in p]
                elif v == "locmask":
                    m = rng.random(nr) < 0.6
                    if not m.any():
                        continue
                    e, o["rows"] = d.loc[m], [int(x) + 1 for x in np.flatnonzero(m)]
                else:
                    o["rows"] = list(range(1, nr + 1))
                    p = [int(x) for x in rng.permutation(nc)[:int(rng.integers(1, nc + 1))]]
                    if v == "col":
                        p = p[:1]
                        o["kind"] = "series"
                    o["cols"] = [x + 1 for x in p]
                    nm = [d.wrapper.columns[x] for x in p]
                    e = d[nm[0]] if v == "col" else d[nm]
                o["after"] = dt.state(e)
                if o["keep"]:
                    d = e
                ops.append(o)
            elif u < 0.85 and nr:
                x = d.concat()
                ops.append({"op": "concat", "out": [{"col": -1 if k is None else int(k[1:]) if isinstance(k, str) else int(k), "rows": dt.cells(v)} for k, v in x.items()]})
                if nsym > 1:
                    ck.expect(all(list(v.columns) == syms and v.index.equals(d.wrapper.index) for v in x.values()), "tables side by side are labelled", {}, part="DataTrace")
            elif nr:
                nm = list(d.wrapper.columns)
                if nc > 1:
                    which = c([int(rng.integers(nc))], [int(x) for x in rng.permutation(nc)[:2]], None)
                    arg = None if which is None else nm[which[0]] if len(which) == 1 else [nm[x] for x in which]
                    if which is None:
                        which = list(range(nc))
                else:
                    arg, which = None, [0]
                g = d.get(arg)
                if nsym == 1:
                    g = [g] if g.ndim == 1 else [g.iloc[:, j] for j in range(g.shape[1])]
                elif not isinstance(g, tuple):
                    g = [g]
                ops.append({"op": "get", "which": [x + 1 for x in which], "out": [dt.cells(x) for x in g]})
        cases.append({"mi": mi, "mc": mc, "shift": shift, "ops": ops})
    return cases


if __name__ == "__main__":
    main("P22", run, workers={"histories": histories, "replay_rows": replay, "replay_columns": replay, "replay_updates": replay})
