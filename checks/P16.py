"""P16: broadcasting, labels and flexible indexing."""
import json, os, warnings
import numpy as np
from vb import main
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Good Again Strict Sym\nCONSTANTS MaxN = %d Wide = %s\n"


def run(ck):
    w = ck.start("histories")
    jit = ck.start("compiled", jit=True) if ck.thorough else None
    todo = []
    for n, wide in [(2, "TRUE")] + ([(3, "FALSE")] if ck.thorough else []):
        r = ck.model("BcMC", CFG % (n, wide), name=f"{n}-{wide}", workers=6)
        out = r.out
        if len(out) > 80000:
            out = [out[i] for i in sorted(np.random.default_rng(ck.seed).choice(len(out), 80000, replace=False))]
        f = os.path.join(ck.scratch, f"b{n}{wide}.json")
        json.dump(out, open(f, "w"))
        ck.sample(out[-1])
        todo.append(ck.start("replay", arg=f))
    cases = ck.join(w) + (ck.join(jit) if jit else [])
    ck.validate("BcTrace", cases, workers=6, done=True)
    ck.sample(cases[0])
    for q in todo:
        ck.traces += ck.join(q) or 0


def replay(ck):
    import bc
    warnings.simplefilter("ignore")
    out = json.load(open(ck.worker_arg))
    for t in out:
        got, lazy = bc.replay(t)
        ck.expect(got == t["res"], "shape, elements and labels after broadcasting", {"behaviour": t, "got": got} if got != t["res"] else None, part="BcMC")
        ck.expect(lazy, "flexible indexing selects the broadcast element", t if not lazy else None, part="flexible")
    return len(out)


def histories(ck):
    import bc
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(ck.seed * 1000 + 16)
    return [bc.case(rng) for i in range(8000 if ck.thorough else 1000)]


def compiled(ck):
    """Flexible indexing in the compiled form the simulators use."""
    import bc
    rng = np.random.default_rng(ck.seed * 1000 + 61)
    return [{"ops": [bc.op_flex(rng) for _ in range(6)]} for i in range(400)]


if __name__ == "__main__":
    main("P16", run, workers={"histories": histories, "compiled": compiled, "replay": replay})
