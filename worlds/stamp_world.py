"""
C30: current-time timestamps taken while a simulated clock moves at any moment:
between two readings of it, and whenever the thread taking the timestamp is
paused inside the library.
"""
import datetime as real_datetime
import os
import re
import time as real_time
import types

from sim import kernel as K, runner, seams
from sim.kernel import Violation, HarnessError
from worlds.sched_threads import gen_sched

UTC = real_datetime.timezone.utc
ZONES = ["UTC0", "UTC0", "IST-5:30", "AAA+12", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NPT-5:45"]


class Clock:
    def __init__(self, case, out):
        self.us = case["origin"]
        self.reads = case["reads"]
        self.n = 0
        self.out = out
        self.watch = []              # intervals being observed

    def move(self, d):
        self.us += d
        for w in self.watch:
            w[0] = min(w[0], self.us)
            w[1] = max(w[1], self.us)
            w[2] = w[2] or d < 0

    def read(self):
        # the clock moves before every reading of it
        d = self.reads[self.n % len(self.reads)] if self.reads else 0
        self.n += 1
        if d:
            self.out.faults["moved_before_reading"] += 1
            self.move(d)
        return self.us


_clock = [None]


def _read():
    c = _clock[0]
    if c is None:
        raise HarnessError("the clock was read outside a simulation")
    return c.read()


class SimDate(real_datetime.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(_read() // 10 ** 6)


class SimDateTime(real_datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        s, us = divmod(_read(), 10 ** 6)
        return cls.fromtimestamp(s, tz).replace(microsecond=us)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        s, us = divmod(_read(), 10 ** 6)
        return cls.fromtimestamp(s, UTC).replace(microsecond=us, tzinfo=None)


def make_modules():
    d = types.ModuleType("datetime")
    for n in dir(real_datetime):
        if not n.startswith("__"):
            setattr(d, n, getattr(real_datetime, n))
    d.datetime, d.date = SimDateTime, SimDate
    t = types.ModuleType("time")
    for n in dir(real_time):
        if not n.startswith("__"):
            setattr(t, n, getattr(real_time, n))
    t.time = lambda: _read() / 10 ** 6
    t.time_ns = lambda: _read() * 1000
    t.clock_gettime = lambda c: _read() / 10 ** 6
    t.clock_gettime_ns = lambda c: _read() * 1000
    t.monotonic = t.perf_counter = t.time
    t.monotonic_ns = t.perf_counter_ns = t.time_ns
    t.gmtime = lambda s=None: real_time.gmtime(_read() // 10 ** 6 if s is None else s)
    t.localtime = lambda s=None: real_time.localtime(_read() // 10 ** 6 if s is None else s)
    t.strftime = lambda f, *a: real_time.strftime(f, *(a or (t.localtime(),)))
    t.ctime = lambda s=None: real_time.ctime(_read() // 10 ** 6 if s is None else s)
    return {"datetime": d, "time": t}


MODULES = make_modules()
HUMAN = re.compile(r"(\d{4})/(\d\d)/(\d\d) (\d\d):(\d\d):(\d\d)(?:\.(\d{6}))?\Z")
RFC = re.compile(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{6}))?Z\Z")


def instants(kind, s):
    "The instants (in microseconds) the timestamp may denote."
    m = (HUMAN if kind == "human" else RFC).match(s)
    if not m:
        raise Violation("wrong-format", f"{kind}: {s!r}")
    f = [int(x) for x in m.groups()[:6]]
    us = int(m.group(7) or 0)
    try:
        if kind == "human":
            d = {int(real_datetime.datetime(*f, fold=x).timestamp()) for x in (0, 1)}
        else:
            d = {int(real_datetime.datetime(*f, tzinfo=UTC).timestamp())}
    except ValueError as e:
        raise Violation("wrong-format", f"{kind}: {s!r}: {e}")
    return {x * 10 ** 6 + us for x in d}, m.group(7) is not None


def offset(us):
    return real_time.localtime(us // 10 ** 6).tm_gmtoff


class C30(runner.Check):
    id = "C30"
    lists = (("stampers",), ("stampers", "*"), ("moves",), ("reads",))
    real = ("big.time.timestamp_human, timestamp_3339Z", "datetime's and time's own conversions")
    stubs = ("the clock behind datetime and time", "thread scheduler")
    runs = {"quick": 48000, "thorough": 1000000}
    time_unit = "simulated seconds"
    rule = ("one case = 1-2 threads taking up to 8 current timestamps each of both kinds, a clock starting near a second, day, month, year or daylight saving boundary that moves before every reading and, by another task, whenever "
            "the scheduler pauses a thread inside the library; each timestamp compared with the clock values during its call and with earlier ones; non-trivial = the clock moved during a call; distinct by results and clock")
    assumptions = ("the clock has microsecond resolution and lies in the years 1971 to 2099", "human timestamps are compared for order only when the local time zone's offset did not change between them")
    required_probes = ("moved_during_call", "second_passed_during_call", "year_boundary", "daylight_saving_fold")

    def gen(self, rng, index, tier):
        tz = rng.choice(ZONES)
        r = rng.random()
        y = rng.randrange(1971, 2099)
        if r < .3:
            base = real_datetime.datetime(y, 1, 1, tzinfo=UTC)
        elif r < .45:
            base = real_datetime.datetime(y, rng.randrange(1, 13), 1, tzinfo=UTC)
        elif r < .55:
            base = real_datetime.datetime(y, 3, 1, tzinfo=UTC)
        elif r < .7:
            # around the end of daylight saving time in two of the zones
            base = real_datetime.datetime(2023, 11, 5, rng.choice([5, 6, 7]), tzinfo=UTC) if "EST" in tz else real_datetime.datetime(2023, 10, 29, rng.choice([0, 1, 2]), tzinfo=UTC)
        else:
            base = real_datetime.datetime(y, rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60), tzinfo=UTC)
        origin = int(base.timestamp()) * 10 ** 6
        if rng.random() < .3:
            origin -= {"IST-5:30": 19800, "AAA+12": -43200, "NPT-5:45": 20700}.get(tz, 0) * 10 ** 6
        origin += rng.choice([-1, -2, -5, -100, -999999, 0, 1, -500000, rng.randrange(-10 ** 7, 10 ** 7)])
        steps = [0, 1, 1, 2, 10, 499999, 999999, 10 ** 6, 10 ** 6 + 1, 3 * 10 ** 6, 86400 * 10 ** 6]
        back = rng.random() < .12
        def step():
            d = rng.choice(steps)
            return -d if back and rng.random() < .4 else d
        return {"tz": tz, "origin": origin, "reads": [step() for _ in range(rng.choice([0, 1, 3, 6]))], "moves": [step() or 1 for _ in range(rng.choice([0, 4, 12, 25]))],
                "stampers": [[[rng.choice(["human", "3339"]), rng.choice(["", "none", "true", "false", "kwtrue", "kwfalse"])] for _ in range(rng.choice([1, 2, 4, 8]))] for _ in range(rng.choice([1, 1, 2]))],
                "sched": gen_sched(rng, 80)}

    def run(self, case):
        out = runner.Outcome()
        os.environ["TZ"] = case["tz"]
        real_time.tzset()
        clock = Clock(case, out)
        _clock[0] = clock
        try:
            mod = seams.fresh("time", extra=MODULES)
            k = K.Kernel(case["sched"], step_cap=40_000, code_prefixes=seams.CODE_PREFIXES)
            start = clock.us

            def stamper(me, calls):
                last = {}
                for kind, how in calls:
                    fn = mod.timestamp_human if kind == "human" else mod.timestamp_3339Z
                    w = [clock.us, clock.us, False]
                    clock.watch.append(w)
                    a, kw = {"": ((), {}), "none": ((None,), {}), "true": ((None, True), {}), "false": ((None, False), {}), "kwtrue": ((), {"want_microseconds": True}), "kwfalse": ((), {"t": None, "want_microseconds": False})}[how]
                    try:
                        s = fn(*a, **kw)
                    except (Violation, HarnessError):
                        raise
                    except Exception as e:
                        raise Violation("unexpected-exception", f"{fn.__name__}({a}, {kw}): {type(e).__name__}: {e}")
                    clock.watch[:] = [x for x in clock.watch if x is not w]
                    self.judge(kind, how, s, w, last, out)
                    k.note(me, kind, s, clock.us - start)
                    k.point()

            def mover():
                for d in case["moves"]:
                    k.point()
                    clock.move(d)
                    out.faults["clock_moved" if d > 0 else "clock_went_back"] += 1
                    back.append(d < 0)
                    k.point()
            back = []
            self.back = lambda: sum(back)
            for i, calls in enumerate(case["stampers"]):
                k.spawn(f"stamper{i}", lambda i=i, calls=calls: stamper(i, calls))
            k.spawn("clock", mover)
            k.run()
            out.violation = k.violation
        finally:
            _clock[0] = None
            os.environ["TZ"] = "UTC"
            real_time.tzset()
        out.switches = k.switches
        out.log = k.log
        out.steps = k.step
        out.sim_time = abs(clock.us - start) / 1e6
        out.nontrivial = out.probes["moved_during_call"] > 0
        out.signature = runner.sig((case["tz"], case["origin"], [e[3:] for e in out.log]))
        return out

    def judge(self, kind, how, s, w, last, out):
        lo, hi, went_back = w
        out.stats[kind] += 1
        if not isinstance(s, str):
            raise Violation("wrong-format", f"{kind}: {s!r}")
        cand, micro = instants(kind, s)
        if micro != (not how.endswith("false")):
            raise Violation("wrong-format", f"{kind}({how}): {s!r}")
        if hi > lo:
            out.probes["moved_during_call"] += 1
            if hi // 10 ** 6 > lo // 10 ** 6:
                out.probes["second_passed_during_call"] += 1
            ys = [real_datetime.datetime.fromtimestamp(x // 10 ** 6, UTC).year for x in (lo, hi)]
            if ys[0] != ys[1]:
                out.probes["year_boundary"] += 1
        if kind == "human" and len(cand) > 1:
            out.probes["daylight_saving_fold"] += 1
        floor = lo if micro else lo // 10 ** 6 * 10 ** 6
        if not any(floor <= c <= hi for c in cand):
            raise Violation("torn", f"{kind}: {s!r} is no moment of its call: it denotes {sorted(cand)}, the clock showed {lo} to {hi}")
        key = (kind, micro)
        went = self.back()
        reading = any(d < 0 for d in _clock[0].reads)
        if key in last and not went_back and not reading:
            s0, hi0, went0 = last[key]
            if went0 == went and (kind != "human" or (offset(hi0) == offset(lo) == offset(hi) == last[key, "lo"])):
                out.probes["order_compared"] += 1
                if s < s0:
                    raise Violation("out-of-order", f"{kind}: {s0!r} was taken before {s!r}")
        # (the clock may have gone back during this call, after the moment it shows)
        last[key] = (s, hi, None if went_back else went)
        last[key, "lo"] = offset(lo)
