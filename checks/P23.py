"""P23: scheduled jobs and the data updater."""
import json, os
import numpy as np
from vb import main

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Inv Earliest
CONSTANTS
 What = "%s"
 Start = 209720
 Steps = {%s}
 MaxSteps = %d
"""


def run(ck):
    w = ck.start("histories")
    todo = []
    for what, steps, n in (("parse", "1", 1), ("run", "1, 47, 3600, 86400", 4 if ck.thorough else 3)):
        r = ck.model("SchedMC", CFG % (what, steps, n), name="SchedMC " + what, workers=6)
        good = [b for b in r.out if what == "run" or b["ok"]]
        rest = [b for b in r.out if not (what == "run" or b["ok"])]
        rng = np.random.default_rng(ck.seed)
        keep = good + [rest[i] for i in rng.permutation(len(rest))[:10 ** 6 if ck.thorough else 3000]]
        if len(keep) > 4000 and not ck.thorough:
            keep = [keep[i] for i in rng.permutation(len(keep))[:4000]]
        f = os.path.join(ck.scratch, what + ".json")
        json.dump(keep, open(f, "w"))
        todo.append(ck.start("replay_" + what, arg=f))
        ck.sample(keep[0])
    r = ck.model("Updater", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Kept Stopped\nCONSTANT MaxRuns = %d\n" % (6 if ck.thorough else 4))
    f = os.path.join(ck.scratch, "updater.json")
    json.dump(r.out, open(f, "w"))
    todo.append(ck.start("updater", arg=f))
    cases = ck.join(w)
    ck.validate("SchedTrace", cases, workers=6, done=True)
    ck.sample(cases[0]["ops"][:3])
    for q in todo:
        ck.traces += ck.join(q)


def replay_parse(ck):
    import sc, schedule
    todo = json.load(open(ck.worker_arg))
    for b in todo:
        m = sc.Sim(209720).m
        try:
            j = m.every(*[sc.argument(a) for a in b["args"]]).do(lambda: None)
            got = [j.unit, j.interval, sc.DAYS.index(j.start_day) if j.start_day else -1, sc.at_seconds(j), sc.stamp(j.next_run)]
            res = "job"
        except (schedule.ScheduleError, TypeError):
            got, res = [], "unsuited"
        except ValueError:
            got, res = [], "refused"
        if not b["ok"]:
            ck.expect(res == "refused", "arguments out of order are refused", {"b": b, "got": got, "res": res}, part="SchedMC parse")
        elif b["suits"]:
            p = b["p"]
            ck.expect(res == "job" and got == [p["unit"], p["interval"], p["day"], p["at"], b["next"]], "arguments mean what the model says", {"b": b, "got": got, "res": res}, part="SchedMC parse")
    return len(todo)


def replay_run(ck):
    import sc
    todo = json.load(open(ck.worker_arg))
    for n, b in enumerate(todo):
        s = sc.Sim(209720)
        asy = n % 4 == 3
        for j in b["jobs"]:
            args = []
            if j["day"] >= 0:
                args = [sc.DAYS[j["day"]]]
            else:
                args = [str(j["interval"]), j["unit"]]
            if j["at"] >= 0:
                h, m, x = j["at"] // 3600, j["at"] // 60 % 60, j["at"] % 60
                args.append({"minutes": ":%02d" % x, "hours": "%02d:%02d" % (m, x)}.get(j["unit"], "%02d:%02d:%02d" % (h, m, x)))
            s.add(args, until=None if j["until"] < 0 else j["until"])
        got, want = [], []
        for d, x in zip(b["steps"], b["seen"]):
            o = s.tick(d, asy)
            ids = [r["id"] for r in o["runs"]]
            got.append([sorted(ids) if asy else ids, [[a["id"], a["next"]] for a in o["after"]]])
            want.append([sorted(x["ran"]) if asy else x["ran"], x["next"]])
        ck.expect(got == want, "jobs run when due", {"b": b, "got": got, "async": asy}, part="SchedMC run")
    return len(todo)


def updater(ck):
    import sc, asyncio, time
    import pandas as pd
    import vectorbt as vbt

    class D(vbt.Data):
        @classmethod
        def download_symbol(cls, symbol, **kw):
            return pd.Series([0.0], index=pd.date_range("2024", periods=1, freq="D", tz="UTC"))

        def update_symbol(self, symbol, **kw):
            x = next(outs)
            if x == "stop":
                raise sc.vs.CancelledError
            if x == "fail":
                raise RuntimeError("no answer")
            n[0] += 1
            last = self.data[symbol].index[-1]
            return pd.Series(float(n[0]), index=pd.date_range(last, periods=2 if x == "more" else 1, freq="D"))
    todo = json.load(open(ck.worker_arg))
    for k, b in enumerate(todo):
        for how in ("start", "background"):
            outs, n = iter(b["outcomes"]), [0]
            sc.NOW[0] = 0
            turns = len(b["outcomes"])
            u = vbt.DataUpdater(D.download("S"))
            left = [turns]
            osleep, oasleep = time.sleep, asyncio.sleep

            def fsleep(s):
                left[0] -= 1
                sc.NOW[0] += 1
                if left[0] == 0:
                    raise KeyboardInterrupt

            async def fasleep(s, *a, **kw):
                fsleep(s) if left[0] > 1 else u.schedule_manager.stop()
                await oasleep(0)
            state = "going"
            sc.NOW[0] = 0
            time.sleep, asyncio.sleep = fsleep, fasleep
            try:
                u.schedule_manager.scheduler.clear()
                sched = u.schedule_manager
                real_every = sched.every
                sched.every = lambda *a, **kw: Due(real_every(*a, **kw))
                if how == "start":
                    u.update_every()
                    t = None
                else:
                    async def main():
                        u.update_every(in_background=True)
                        t = u.schedule_manager.async_task
                        for _ in range(turns * 20):
                            await oasleep(0)
                            if t.done():
                                break
                        return t
                    t = asyncio.run(main())
                    if t.done() and not t.cancelled() and t.exception():
                        raise t.exception()
                    if not t.done():
                        state = "running"
            except RuntimeError:
                state = "failed"
            finally:
                time.sleep, asyncio.sleep = osleep, oasleep
            rest = len(list(outs))
            if state == "going" and b["state"] == "stopped":
                state = "stopped"
            rows = [int(v) for v in u.data.get().values]
            ck.expect(rows == b["rows"] and rest == 0 and (state == b["state"]) and u.config["data"] is u.data,
                      "the updater keeps what was fetched and stops when asked", {"b": b, "how": how, "rows": rows, "left": rest, "state": state}, part="Updater")
    return 2 * len(todo)


class Due:
    """A job made due at once when it is given its function."""

    def __init__(self, job):
        self.job = job

    def do(self, *a, **kw):
        import sc
        j = self.job.do(*a, **kw)
        sc.NOW[0] += 1
        return j


def histories(ck):
    import sc
    rng = np.random.default_rng(ck.seed * 1000 + 23)
    return [sc.history(rng) for _ in range(8000 if ck.thorough else 900)]


if __name__ == "__main__":
    main("P23", run, workers={"histories": histories, "replay_parse": replay_parse, "replay_run": replay_run, "updater": updater})
