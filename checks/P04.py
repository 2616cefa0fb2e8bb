"""P04: stops.  Stop programs of the specification are enumerated by TLC and replayed; random programs with stops and
adjustment functions are validated bar by bar."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from vb import main, num, nums, fl
import vb
import P03


def run(ck):
    import sig
    ws = [ck.start("sims"), ck.start("sims_jit", jit=True)]
    model(ck)
    for w in ws:
        cases = ck.join(w)
        ck.validate("FromSignalsTrace", cases, name="FromSignalsTrace " + w[0], workers=6, steps=sig.steps(cases))
    ck.sample({k: cases[0][k] for k in ("n", "t", "kind", "sl", "trail", "tp", "sep", "sxp", "bars")})


def model(ck):
    base = dict(What="stops", NB=3, Accs='{"Disabled"}', Shapes='{"up","down","wide","gapup","gapdn","nohl","edge","peak"}',
                Sls='{"nan","1/4"}', Tps='{"nan","1/4"}', Seps='{"Close","FillPrice"}')
    grow = dict(base, Accs='{"Both"}', Shapes='{"up","down","wide","edge"}', Seps='{"Close"}', Usxs='{"Close","CloseReduce"}',
                Usus='{"Keep","Override","OverrideNaN"}', Entry="{TRUE}")
    if ck.thorough:
        P03.model_run(ck, **dict(base, Tight="FALSE", Seps='{"Close","FillPrice","Price","ValPrice"}'))
        P03.model_run(ck, **dict(base, NB=4, Usxs='{"Close","ReverseReduce"}', Seps='{"Close"}',
                                 Shapes='{"up","down","wide","gapup","gapdn","edge"}'))
        P03.model_run(ck, **dict(grow, NB=4))
    else:
        P03.model_run(ck, **dict(base, Seps='{"FillPrice"}'))
        P03.model_run(ck, **grow)


def sims(ck):
    return P03.sims(ck, False, True)


def sims_jit(ck):
    return P03.sims(ck, True, True)


if __name__ == "__main__":
    main("P04", run, workers={"sims": sims, "sims_jit": sims_jit})
