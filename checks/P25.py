"""P25: cached attributes."""
import json, os, threading, time
import numpy as np
from vb import main

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Inv Small
CONSTANTS
 Len0 = %d
 Two = %s
"""
THR = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Once Agree OneIn
PROPERTY Ends
CONSTANT Threads = {%s}
"""


def run(ck):
    w = ck.start("histories")
    th = ck.start("threads")
    todo = []
    for name, n, two, workers in (("conditions", 0, "TRUE" if ck.thorough else "FALSE", 6), ("sequences", 4 if ck.thorough else 3, "FALSE", 6)):
        r = ck.model("CacheMC", CFG % (n, two), name="CacheMC " + name, workers=workers, timeout=800)
        keep = [r.out[i] for i in np.random.default_rng(ck.seed).permutation(len(r.out))[:60000 if ck.thorough else 6000]]
        f = os.path.join(ck.scratch, name + ".json")
        json.dump(keep, open(f, "w"))
        todo.append(ck.start("replay", arg=f))
        ck.sample(keep[0])
    for n in ("1, 2", "1, 2, 3"):
        ck.model("CacheThreads", THR % n, name="CacheThreads " + n)
    cases = ck.join(w)
    ck.validate("CacheTrace", cases, workers=6, done=True)
    ck.sample(cases[0]["ops"])
    for q in todo + [th]:
        ck.traces += ck.join(q)


def replay(ck):
    import ca
    todo = json.load(open(ck.worker_arg))
    for j, b in enumerate(todo):
        w = ca.World(j)
        w.caching["enabled"] = b["enabled"]
        for k in ("white", "black"):
            for c in b[k]:
                w.do({"op": k, "cond": c})
        got = []
        for o in b["prog"]:
            r = w.do(o)
            got.append(r[0] if r else 0)
            if r and not ck.expect(r[1], "a value belongs to its object, function and argument", {"b": b, "op": o}, part="CacheMC"):
                break
        ck.expect(got == b["outs"], "cached or computed as the model says", {"b": b, "got": got}, part="CacheMC")
    return len(todo)


def histories(ck):
    import ca
    rng = np.random.default_rng(ck.seed * 1000 + 25)
    return [ca.history(rng) for _ in range(8000 if ck.thorough else 700)]


def threads(ck):
    """Several threads read a property while its function is held up: it runs once and all get its value."""
    import ca
    from vectorbt.utils.decorators import cached_property
    runs = 60 if ck.thorough else 15
    w = ca.World()
    ca.vbt.settings.caching["enabled"] = True
    for k in range(runs):
        gate, calls, got = threading.Event(), [], []

        class T:
            @cached_property
            def slow(self):
                calls.append(1)
                gate.wait(5)
                return len(calls)

            @cached_property
            def twice(self):
                return self.slow + 1
        t = T()
        ths = [threading.Thread(target=lambda: got.append(t.slow)) for _ in range(2 + k % 3)]
        for x in ths:
            x.start()
            if k % 2:
                time.sleep(0.002)
        time.sleep(0.02)
        gate.set()
        for x in ths:
            x.join(10)
        ck.expect(len(calls) == 1 and got == [1] * len(ths) and t.twice == 2, "threads share one computation", {"calls": len(calls), "got": got}, part="CacheThreads")
    return runs


if __name__ == "__main__":
    main("P25", run, workers={"histories": histories, "replay": replay, "threads": threads})
