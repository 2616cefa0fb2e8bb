"""Schedule managers of the real library under a controlled clock."""
import asyncio, datetime as real, os, time
os.environ["TZ"] = "UTC"
time.tzset()
import schedule
import vectorbt.utils.schedule_ as vs

NOW = [0]


class FakeDT(real.datetime):
    @classmethod
    def now(cls, tz=None):
        assert tz is None
        return BASE + real.timedelta(seconds=NOW[0])

    @classmethod
    def today(cls):
        return cls.now()


BASE = FakeDT(2024, 1, 1)  # a Monday


class FakeModule:
    datetime = FakeDT
    timedelta, time, date = real.timedelta, real.time, real.date


schedule.datetime = FakeModule
if getattr(vs, "datetime", None) is real.datetime:
    vs.datetime = FakeDT
elif getattr(vs, "datetime", None) is real:
    vs.datetime = FakeModule
DAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]


def stamp(dt):
    return int((dt - BASE).total_seconds())


def argument(text):
    """An argument of `every` from its short form."""
    if text.startswith("td"):
        return real.timedelta(seconds=int(text[2:]))
    if text == "t12:00":
        return real.time(12, 0)
    if text == "t12:30+2":
        return real.time(12, 30, tzinfo=real.timezone(real.timedelta(hours=2)))
    return int(text) if text.isdigit() else text


def at_seconds(job):
    return -1 if job.at_time is None else job.at_time.hour * 3600 + job.at_time.minute * 60 + job.at_time.second


class Sim:
    def __init__(self, start):
        NOW[0] = start
        self.m = vs.ScheduleManager()
        self.jobs, self.runs, self.n = {}, [], 0

    def after(self):
        ids = {id(j): i for i, j in self.jobs.items()}
        return [{"id": ids.get(id(j), -1), "next": stamp(j.next_run)} for j in self.m.scheduler.jobs]

    def add(self, args, to=None, tags=None, until=None, plan=(), isasync=False):
        """plan: what the runs of the job do, in turn; the last one is repeated."""
        self.n += 1
        i, count = self.n, [0]

        def act():
            p = plan[min(count[0], len(plan) - 1)] if plan else {}
            count[0] += 1
            r = {"id": i, "does": p.get("does", "ok"), "tag": p.get("tag", ""), "took": p.get("took", 0)}
            self.runs.append(r)
            NOW[0] += r["took"]
            if r["does"] == "clear":
                self.m.scheduler.clear(r["tag"])
            if r["does"] == "raise":
                raise vs.CancelledError
            return {"cancel": schedule.CancelJob, "cancelobj": schedule.CancelJob()}.get(r["does"], 5)

        async def aact():
            return act()
        now = NOW[0]
        job = self.m.every(*[argument(a) for a in args], to=to, tags=tags)
        if until is not None:
            job = job.until(BASE + real.timedelta(seconds=until))
        job = job.do(aact if isasync else act)
        self.jobs[i] = job
        tg = [] if tags is None else list(tags) if isinstance(tags, (tuple, list, set)) else [tags]
        spec = {"id": i, "unit": job.unit, "interval": job.interval, "day": DAYS.index(job.start_day) if job.start_day else -1, "at": at_seconds(job),
                "latest": -1 if to is None else to, "until": -1 if until is None else until, "tags": tg, "next": 0}
        return {"op": "add", "now": now, "job": spec, "args": list(args), "after": self.after()}

    def tick(self, dt, isasync, all_=False):
        NOW[0] += dt
        self.runs = []
        o = {"op": "all" if all_ else "tick", "now": NOW[0], "async": isasync, "raised": False}
        s = self.m.scheduler
        try:
            if isasync:
                asyncio.run(s.async_run_all() if all_ else s.async_run_pending())
            else:
                s.run_all() if all_ else s.run_pending()
        except (asyncio.CancelledError, vs.CancelledError):
            o["raised"] = True
        o["runs"], o["after"] = self.runs, self.after()
        return o

    def clear(self, tag):
        self.m.scheduler.clear(*([tag] if tag else []))
        return {"op": "clear", "tag": tag, "after": self.after()}

    def drop(self, i):
        self.m.scheduler.cancel_job(self.jobs[i])
        return {"op": "drop", "id": i, "after": self.after()}

    def loop(self, sleep, turns, how):
        """The manager's own loop for a number of turns; it is ended by an interrupt, a cancellation or a stop."""
        self.runs = []
        o = {"op": "loop", "now": NOW[0], "async": how != "sync", "sleep": sleep, "turns": turns, "ended": True}
        left = [turns]
        osleep, oasleep = time.sleep, asyncio.sleep

        def fsleep(s):
            left[0] -= 1
            if left[0] == 0:
                raise KeyboardInterrupt
            NOW[0] += s

        async def fasleep(s, *a, **k):
            left[0] -= 1
            if left[0] == 0:
                if how == "background":
                    self.m.stop()
                    await oasleep(0)
                raise asyncio.CancelledError
            NOW[0] += s
            await oasleep(0)
        time.sleep, asyncio.sleep = fsleep, fasleep
        try:
            if how == "sync":
                self.m.start(sleep=sleep)
            elif how == "async":
                asyncio.run(self.m.async_start(sleep=sleep))
            else:
                async def main():
                    self.m.start_in_background(sleep=sleep)
                    assert self.m.async_task_running
                    for _ in range(turns * 40):
                        await oasleep(0)
                        if not self.m.async_task_running:
                            break
                    o["ended"] = not self.m.async_task_running
                    self.m.stop()
                asyncio.run(main())
        finally:
            time.sleep, asyncio.sleep = osleep, oasleep
        o["runs"], o["after"] = self.runs, self.after()
        return o


ARGS = [[], ["2"], ["10", "seconds"], ["minute"], ["3", "minutes"], ["minute", ":17"], ["hour"], ["2", "hours"], ["hour", "05:30"], ["hour", ":45"], ["day"], ["10:30"],
        ["t12:00"], ["2", "days", "23:59:59"], ["day", "t12:30+2"], ["monday"], ["friday", "13:15"], ["week"], ["2", "weeks"], ["td90"], ["td7200", "hours"], ["td3", "seconds"],
        ["sunday", "00:00"], ["45", "seconds"]]
SPAN = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "weeks": 604800}


def history(rng):
    c = lambda *xs: xs[int(rng.integers(len(xs)))]
    s = Sim(int(rng.integers(0, 20 * 86400)))
    big = rng.random() < 0.5
    pool = ARGS if big else [a for a in ARGS if a in ([], ["2"], ["10", "seconds"], ["minute"], ["3", "minutes"], ["minute", ":17"], ["td90"], ["td3", "seconds"], ["45", "seconds"])]
    ops, asy = [], bool(rng.random() < 0.5)
    for _ in range(int(rng.integers(5, 25))):
        u = rng.random()
        if u < 0.3 or not s.jobs:
            args = c(*pool)
            plan = [{"does": c("ok", "ok", "ok", "ok", "cancel", "cancelobj", "clear", "raise"), "tag": c("x", "y", 7), "took": c(0, 0, 0, 1, 5)} for _ in range(int(rng.integers(0, 4)))]
            if asy:
                for p in plan:
                    p["took"] = 0
                    if p["does"] == "clear":
                        p["does"] = "ok"
            until = NOW[0] + int(rng.integers(1, 400 if not big else 500000)) if rng.random() < 0.3 else None
            to = None
            if rng.random() < 0.15 and args and args[0].isdigit():
                to = int(args[0]) + int(rng.integers(0, 4))
            ops.append(s.add(args, to, c(None, None, "x", ("x", "y"), ["y", 7], {"x"}, 7), until, plan, asy and bool(rng.random() < 0.5)))
        elif u < 0.75:
            d = c(0, 1, 3, 20, 60, 100) if not big else c(1, 60, 1800, 3600, 43200, 86400, 200000)
            ops.append(s.tick(d, asy))
        elif u < 0.8:
            ops.append(s.tick(c(0, 5), asy, True))
        elif u < 0.86:
            ops.append(s.clear(c("x", "y", 7, "z", "" if rng.random() < 0.3 else "x")))
        elif u < 0.9:
            ops.append(s.drop(c(*s.jobs)))
        elif not any(j.latest is not None for j in s.m.scheduler.jobs):
            ops.append(s.loop(c(1, 2, 30) if not big else c(60, 3600, 50000), int(rng.integers(1, 12)), c("async", "background") if asy else "sync"))
    return {"ops": [dict(o, tag=str(o["tag"])) if "tag" in o else o for o in norm(ops)]}


def norm(ops):
    """Tags as strings."""
    for o in ops:
        if "job" in o:
            o["job"]["tags"] = [str(t) for t in o["job"]["tags"]]
        for r in o.get("runs", []):
            r["tag"] = str(r["tag"])
    return ops
