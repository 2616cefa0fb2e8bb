"""P28: names and values translated by mappings and enumerations."""
import json, os
import numpy as np
from vb import main

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Total Writing Strokes There\nPROPERTIES Local\nCONSTANTS N = %d\nWide = %s\n"


def run(ck):
    ws = [ck.start("cases", arg=str(i)) for i in range(2)]
    r = ck.model("MappingMC", CFG % ((2, "TRUE") if ck.thorough else (2, "FALSE")), workers=6, timeout=700)
    todo = [r.out[i] for i in np.random.default_rng(ck.seed).permutation(len(r.out))[:100000 if ck.thorough else 12000]]
    f = os.path.join(ck.scratch, "maps.json")
    json.dump(todo, open(f, "w"))
    w = ck.start("lookups", arg=f)
    cases = [c for q in ws for c in ck.join(q)]
    ck.validate("MappingTrace", cases, name="MappingTrace", workers=6, done=True)
    ck.sample(todo[0])
    ck.sample(cases[0])
    ck.traces += ck.join(w) or 0


def lookups(ck):
    import mp
    todo = json.load(open(ck.worker_arg))
    num = lambda e: (e["t"] if e["t"] in ("s", "n") else "i", e["v"], e["w"])
    for b in todo:
        for (x, want), got in zip(b["q"], mp.exhaust(b)):
            ok = (got["err"] == "KeyError") == (want["t"] == "err")
            if ok and not got["err"]:
                g = got["cols"][0][0]
                ok = num(g) == num(want) or (b["o"]["miss"] and num(g) == num(x) and "".join(x["w"]).replace("_", "").lower() == "".join(want["w"]).replace("_", "").lower() and x["v"] == want["v"])
            ck.expect(ok, "a value is translated as in the model", {"m": b["m"], "o": b["o"], "x": x, "want": want, "got": got}, part="MappingMC")
    return len(todo)


def cases(ck):
    import mp
    rng = np.random.default_rng(ck.seed * 1000 + 28 + 17 * int(ck.worker_arg))
    if ck.worker_arg == "0":
        for name, e in mp.enums():
            for f, v in zip(e._fields, e):
                for w in (f, f.lower(), f.upper(), "_".join(f)):
                    ck.expect(mp.map_enum_fields(w, e) == v, "a name in any writing stands for its value", {"enum": name, "name": w}, part="enumerations")
                ck.expect(mp.map_enum_values(v, e) == f and mp.map_enum_fields(v, e) == v and mp.map_enum_values(f, e) == f,
                          "a value has its name, and what is a value or name already stays", {"enum": name, "name": f}, part="enumerations")
            if -1 not in e:
                ck.expect(mp.map_enum_values(-1, e) is None, "-1 is nothing", {"enum": name}, part="enumerations")
            ck.expect(len(set(e)) == len(e), "values of an enumeration differ", {"enum": name}, part="enumerations")
            ck.traces += len(e)
    return [mp.case(rng) for _ in range(8000 if ck.thorough else 3000)]


if __name__ == "__main__":
    main("P28", run, workers={"cases": cases, "lookups": lookups})
