"""
C01 and C06: one scheduler driven through a simulated regulator.

The regulator is the seam the library defines.  Ours serves a virtual clock of
some time type; its sleeps return exactly on time, early (possibly without any
progress), or late; its clock stalls, ticks coarsely, jumps, and may advance on
every reading; other simulated activities run inside sleeps and schedule and
cancel events there.  Oracle: a list kept sorted by (time, priority, order).
"""
from decimal import Decimal
from fractions import Fraction
from functools import total_ordering

from sim import runner, seams
from sim.kernel import Violation, HarnessError


@total_ordering
class Tick:
    "A minimal user-defined time class."
    __slots__ = ("n",)
    def __init__(self, n):
        self.n = n
    def __add__(self, o):
        return Tick(self.n + (o.n if isinstance(o, Tick) else o))
    __radd__ = __add__
    def __sub__(self, o):
        return Tick(self.n - (o.n if isinstance(o, Tick) else o))
    def __rsub__(self, o):
        return Tick((o.n if isinstance(o, Tick) else o) - self.n)
    def __eq__(self, o):
        if isinstance(o, Tick):
            return self.n == o.n
        if isinstance(o, (int, float)):
            return self.n == o
        return NotImplemented
    def __le__(self, o):
        if isinstance(o, Tick):
            return self.n <= o.n
        if isinstance(o, (int, float)):
            return self.n <= o
        return NotImplemented
    def __lt__(self, o):
        if isinstance(o, Tick):
            return self.n < o.n
        if isinstance(o, (int, float)):
            return self.n < o
        return NotImplemented
    def __hash__(self):
        return hash(self.n)
    def __repr__(self):
        return f"Tick({self.n})"


class Watch(Tick):
    "A time class that adds in place; the caller keeps using the same intervals."
    __slots__ = ()
    def __add__(self, o):
        return Watch(self.n + (o.n if isinstance(o, Tick) else o))
    __radd__ = __add__
    def __iadd__(self, o):
        self.n += o.n if isinstance(o, Tick) else o
        return self
    def __isub__(self, o):
        self.n -= o.n if isinstance(o, Tick) else o
        return self
    def __sub__(self, o):
        return Watch(self.n - (o.n if isinstance(o, Tick) else o))
    def __rsub__(self, o):
        return Watch((o.n if isinstance(o, Tick) else o) - self.n)
    def __repr__(self):
        return f"Watch({self.n})"


# time in 1/8 units, exact in every type
TYPES = {
    "int": lambda n: n,
    "float": lambda n: n / 8.0,
    "fraction": lambda n: Fraction(n, 24),
    "decimal": lambda n: Decimal(n) / Decimal(8),
    "tick": lambda n: Tick(n),
    "watch": lambda n: Watch(n),
    "nano": lambda n: n * 2.0 ** -30,
    "femto": lambda n: n * 2.0 ** -60,
    "mega": lambda n: n * 2.0 ** 20,
    "tinyfraction": lambda n: Fraction(n, 7 * 10 ** 12),
}

PRIOS = [100, 100, 100, 0, -5, 1, 99.5, 1000]


class Unorderable:
    "An event object that cannot be compared, hashed or tested."
    __hash__ = None
    def __init__(self, name):
        self.name = name
    def __eq__(self, o):
        raise TypeError("event objects must not be compared")
    def __lt__(self, o):
        raise TypeError("event objects must not be compared")
    def __bool__(self):
        raise TypeError("event objects must not be tested")
    def __repr__(self):
        return f"<{self.name}>"


class World:
    def __init__(self, case, out):
        self.case = case
        self.out = out
        self.log = out.log
        mod = seams.fresh("scheduler")
        self.mod = mod
        self.conv = TYPES[case["type"]]
        self.now_n = case["origin"]        # clock in units
        self.last_read = None
        self.sleep_plan = list(case["sleeps"])
        self.read_plan = list(case["reads"])
        self.nested = [list(x) for x in case["nested"]]
        self.blocking = None
        self.model = []                    # [time_n, prio, seq, token, obj, handle]
        self.seq = 0
        self.depth = 0
        self.sleeps = 0
        self.slept = None                  # since the clock was read: [the intervals asked for and passed, what was due next]
        self.reads_in_call = 0
        world = self

        class Reg(mod.Regulator):
            def now(self):
                return world.read_clock()
            def sleep(self, interval):
                return world.do_sleep(interval)
            def wake(self):
                pass
        self.wall_n = 0
        if case["reg"] == "single":
            # the library's own regulator over simulated time functions
            seams.outside[0] = self
            self.s = mod.Scheduler(mod.SingleThreadedRegulator()) if case["drain"] != "next" else mod.Scheduler()
        else:
            self.s = mod.Scheduler(Reg())
        self.iters = {}
        self.times = {}
        self.ended = set()                 # kept iterators that came to their end

    # -- the time functions -------------------------------------------------
    def monotonic(self):
        return self.read_clock()
    def wall(self):
        self.wall_n += 1
        return 1_700_000_000.0 + self.conv(self.now_n) + (-1) ** self.wall_n * (self.wall_n * 7919 % 1000)
    def sleep(self, interval):
        self.out.probes["library_regulator_slept"] += 1
        return self.do_sleep(interval)

    # -- regulator --------------------------------------------------------
    def read_clock(self):
        if self.read_plan:
            d = self.read_plan.pop(0)
            if d:
                self.now_n += d
                self.out.faults["clock_moved_on_read"] += 1
        self.last_read = self.now_n
        self.slept = None
        self.reads_in_call += 1
        return self.conv(self.now_n)

    def head(self):
        return min(self.model, key=lambda m: (m[0], m[1], m[2])) if self.model else None

    def do_sleep(self, interval):
        self.sleeps += 1
        if self.blocking is False:
            raise Violation("nonblocking-slept", f"sleep({interval!r}) during a non-blocking step")
        if self.sleeps > 3000 + 2 * self.seq:
            raise Violation("no-progress", f"{self.sleeps} sleeps in one execution")
        if self.slept is None:
            self.slept = [[], self.head()]
        # one sleep may be cut into several; together they are judged by what
        # was known when the first began
        before, h = self.slept
        if self.last_read is not None and h is not None and h[0] <= self.last_read:
            raise Violation("slept-although-due", f"event {h[3]} due at {h[0]}, clock read {self.last_read}, asked to sleep {interval!r}")
        if not (interval >= 0):
            raise Violation("negative-sleep", f"sleep({interval!r})")
        # how far until the interval is over, in units
        n = 0
        base = self.conv(0)
        while not (interval <= self.conv(n) - base):
            n += 1
            if n > 100000:
                raise Violation("overlong-sleep", f"sleep({interval!r}) with head {h}")
        if before:
            # (their sum, as exactly as their type allows)
            total = interval
            for x in before:
                total = total + x
            m = n
            while not (total <= self.conv(m) - base):
                m += 1
                if m > 100000:
                    raise Violation("overlong-sleep", f"sleeps of {before} and {interval!r} with head {h}")
        else:
            m = n
        if h is not None and self.last_read is not None and m > h[0] - self.last_read:
            raise Violation("overlong-sleep", f"sleep of {n} units{f' after others ({before})' if before else ''}, but event {h[3]} is due in {h[0] - self.last_read}")
        plan = self.sleep_plan.pop(0) if self.sleep_plan else 100
        if plan < 100:
            adv = n * plan // 100
            self.out.faults["early_wake" if adv else "early_wake_no_progress"] += 1
        else:
            adv = n + (plan - 100)
            if plan > 100:
                self.out.faults["late_wake"] += 1
        self.now_n += adv
        self.slept[0].append(interval if adv >= n else self.conv(adv) - base)
        slept = self.slept
        self.log.append(("sleep", n, adv, self.now_n))
        if self.nested and self.depth == 0:
            ops = self.nested.pop(0)
            if ops:
                self.depth += 1
                b = self.blocking
                r = self.reads_in_call
                for op in ops:
                    self.out.probes["queue_changed_during_sleep"] += 1
                    self.step(op)
                self.blocking = b
                self.reads_in_call = r
                self.slept = slept
                self.depth -= 1

    # -- operations -------------------------------------------------------
    def make(self, tok):
        k = tok % 6
        if k == 0:
            return None
        if k == 1:
            return 0
        if k == 2:
            return Unorderable(f"ev{tok}")
        if k == 3:
            return "same"
        if k == 4:
            return [tok]
        return float("nan")

    def check_member(self, got, start_now, what):
        h = self.head()
        if h is None:
            raise Violation("phantom-event", f"{what} returned {got!r} although nothing is scheduled")
        if got is not h[4]:
            who = [m for m in self.model if m[4] is got]
            raise Violation("wrong-order" if who else "phantom-event",
                            f"{what} returned {got!r}{[m[:4] for m in who]}, expected {h[:4]} (clock {self.now_n}); scheduled {[m[:4] for m in sorted(self.model, key=lambda m: m[:3])]}")
        if h[0] > self.now_n:
            raise Violation("early-delivery", f"{what} returned {h[:4]} at clock {self.now_n}")
        self.model.remove(h)
        return h

    def step(self, op):
        kind = op[0]
        s = self.s
        if kind == "times":
            # the same operations many times over: long queues, long histories
            self.out.probes["long_history"] += 1
            for k in range(op[1]):
                for o in op[2:]:
                    o = list(o)
                    if o[0] in ("sched", "cancel"):
                        o[1] += 1000 * (k + 1)
                    self.step(o)
            return
        self.out.stats[kind] += 1
        if kind == "sched":
            _, tok, mode, t, prio, kw = op
            obj = self.make(tok)
            self.blocking = False
            before = self.now_n
            kwargs = {}
            if prio != 100 or kw:
                kwargs["priority"] = prio
            time = self.times.setdefault(t, self.conv(t))
            if mode == "abs":
                h = s.schedule(obj, time, absolute=True, **kwargs)
                when = t
            else:
                h = s.schedule(obj, time, **kwargs)
                if not (before <= (self.last_read if self.last_read is not None else -1)):
                    raise Violation("relative-without-clock", "a relative time was scheduled without reading the clock")
                when = self.last_read + t
            if time != self.conv(t):
                raise Violation("argument-changed", f"scheduling at {self.conv(t)!r} ({mode}) changed the caller's object to {time!r}")
            self.seq += 1
            self.model.append([when, prio, self.seq, tok, obj, h])
            self.log.append(("sched", tok, when, prio))
        elif kind == "cancel":
            _, tok, via = op
            hs = [m for m in self.all_handles if m[0] == tok] if hasattr(self, "all_handles") else []
            target = None
            for m in self.model:
                if m[3] == tok:
                    target = m
            handle = target[5] if target else self.dead.get(tok)
            if handle is None:
                return
            self.blocking = False
            try:
                if via:
                    handle.cancel()
                else:
                    s.cancel(handle)
                ok = True
            except ValueError:
                ok = False
            if ok != (target is not None):
                raise Violation("cancel-result", f"cancel of {tok} {'succeeded' if ok else 'raised ValueError'}, scheduled={target is not None}")
            if target:
                self.model.remove(target)
                self.dead[tok] = handle
            self.log.append(("cancel", tok, ok))
        elif kind == "next":
            self.blocking = True
            self.reads_in_call = 0
            start = self.now_n
            try:
                got = next(s)
                done = False
            except StopIteration:
                done = True
            self.blocking = False
            if done:
                if self.model:
                    raise Violation("lost-event", f"next() reported the end although {[m[:4] for m in self.model]} are scheduled")
                self.log.append(("next", "stop"))
            else:
                h = self.check_member(got, start, "next()")
                self.dead[h[3]] = h[5]
                self.log.append(("next", h[3], self.now_n))
        elif kind == "nb":
            _, n, ticks, slot = op
            # an iteration that did not come to its end may be continued later
            it = self.iters.get(slot)
            if it is None:
                it = s.non_blocking()
                if slot:
                    self.iters[slot] = it
            else:
                self.out.probes["non_blocking_continued"] += 1
            if iter(it) is None:
                raise Violation("nonblocking-iter", "no iterator")
            self.blocking = False
            for i in range(n):
                start = self.now_n
                ended = slot and slot in self.ended
                if ended:
                    self.out.probes["non_blocking_asked_after_its_end"] += 1
                try:
                    got = next(it)
                except StopIteration:
                    h = self.head()
                    # asked again after its end, an iterator may stay ended
                    if h is not None and h[0] <= start and not ended:
                        raise Violation("nonblocking-stopped-early", f"stopped although {h[:4]} was due at clock {start}")
                    self.log.append(("nb", "stop", self.now_n))
                    self.out.probes["nonblocking_stop"] += 1
                    if slot:
                        # even slots are kept, and asked again
                        self.ended.add(slot)
                        if slot % 2:
                            self.iters.pop(slot, None)
                            self.ended.discard(slot)
                    if not slot or slot % 2:
                        break
                    continue
                h = self.check_member(got, start, "non_blocking")
                self.dead[h[3]] = h[5]
                self.log.append(("nb", h[3], self.now_n))
                if i < len(ticks):
                    self.now_n += ticks[i]
                    if ticks[i]:
                        self.out.faults["clock_moved_between_steps"] += 1
        elif kind == "bool":
            self.blocking = False
            if bool(s) != bool(self.model):
                raise Violation("truth", f"bool is {bool(s)}, scheduled {[m[:4] for m in self.model]}")
        elif kind == "queue":
            self.blocking = False
            q = s.queue
            want = sorted(self.model, key=lambda m: m[:3])
            if len(q) != len(want) or any(a is not b[5] for a, b in zip(q, want)):
                raise Violation("queue-listing", f"queue lists {[(e.time, e.priority, e.event) for e in q]}, expected {[m[:4] for m in want]}")
        elif kind == "clock":
            self.now_n += op[1]
            self.out.faults["clock_jump"] += 1
        else:
            raise HarnessError(kind)

    def run(self):
        self.dead = {}
        for op in self.case["ops"]:
            self.step(op)
        # drain: everything still scheduled must come out, in order
        if self.case["drain"] == "next":
            while self.model:
                self.step(["next"])
            self.step(["next"])
        elif self.case["drain"] == "nb":
            guard = 0
            while self.model:
                self.step(["clock", 64])
                self.step(["nb", 1000 + self.seq, [], 0])
                guard += 1
                if guard > 200 + self.seq:
                    raise Violation("no-progress", "events never become due")
            self.step(["bool"])


def gen_ops(rng, n, mix, toks, times, nested=False):
    ops = []
    for _ in range(n):
        r = rng.random()
        acc = 0
        for kind, w in mix:
            acc += w
            if r < acc:
                break
        if kind == "sched":
            toks.append(len(toks))
            mode = rng.choice(["abs", "rel"])
            t = rng.choice(times) if mode == "abs" else rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 13, 40, -1, -6])
            ops.append(["sched", toks[-1], mode, t, rng.choice(PRIOS) if rng.random() < .6 else 100, rng.random() < .5])
        elif kind == "cancel":
            ops.append(["cancel", rng.choice(toks) if toks else 0, rng.random() < .5])
        elif kind == "next":
            ops.append(["next"] if not nested else ["bool"])
        elif kind == "nb":
            ops.append(["nb", rng.choice([1, 2, 3, 10]), [rng.choice([0, 0, 1, 5]) for _ in range(rng.randint(0, 3))], rng.choice([0, 0, 1, 2])])
        elif kind == "clock":
            ops.append(["clock", rng.choice([1, 1, 2, 8, 50, 300])])
        else:
            ops.append([kind])
    return ops


class _Single(runner.Check):
    lists = (("ops",), ("nested",), ("nested", "*"), ("sleeps",), ("reads",))
    real = ("big.scheduler.Scheduler", "big.scheduler.Event", "big.heap.Heap")
    stubs = ("the regulator (clock, sleep, wake, lock), or, in a quarter of the runs, the time functions under SingleThreadedRegulator",)
    assumptions = ("the regulator's clock never goes back, as the documentation requires",
                   "times, priorities and their arithmetic are exact in the sampled types")
    time_unit = "clock units (1/8 s, or another unit from 2**-60 s to 2**20 s)"

    def gen(self, rng, index, tier):
        toks = []
        origin = rng.choice([0, 0, 5, 1000])
        times = [origin + x for x in rng.choice([[0, 1, 2, 3, 5, 8, 20, 60], [4], [0, 4], [0, 7, 100, 1000], list(range(30))])]
        long = rng.random() < .008
        if rng.random() < .3:
            times = times + [0, max(0, origin - 3)]
        self_mix = self.mix(rng)
        ops = gen_ops(rng, rng.choice([4, 8, 15, 30]), self_mix, toks, times)
        if long:
            n = rng.choice([40, 70, 140, 270, 270, 270, 520])
            for _ in range(rng.choice([1, 1, 2])):
                body = [o for o in rng.sample(ops, min(len(ops), rng.choice([1, 1, 2, 3]))) if o[0] not in ("queue", "bool", "times")]
                if not any(o[0] == "sched" for o in body):
                    body.insert(0, ["sched", rng.randrange(6), rng.choice(["abs", "rel"]), rng.choice(times), 100, False])
                ops.insert(rng.randint(0, len(ops)), ["times", n] + body)
                n = 40
        pe = rng.choice([0, .2, .6])
        sleeps = [rng.choice([0, 0, 10, 50, 90, 99]) if rng.random() < pe else rng.choice([100, 100, 101, 105, 130]) for _ in range(30)]
        pr = rng.choice([0, 0, .2])
        reads = [rng.choice([1, 2, 9]) if rng.random() < pr else 0 for _ in range(60)]
        pn = rng.choice([0, 0, .3, .7])
        nested = [gen_ops(rng, rng.randint(1, 3), [("sched", .6), ("cancel", .3), ("nb", .05), ("queue", .05)], toks, times, nested=True) if rng.random() < pn else [] for _ in range(15)]
        reg = rng.choice(["ours", "ours", "ours", "single"])
        if reg == "single":
            return {"type": rng.choice(["float", "float", "nano", "femto", "mega"]), "origin": origin, "ops": ops, "reg": reg,
                    "sleeps": sleeps, "reads": reads, "nested": [], "drain": self.drain(rng)}
        return {"reg": reg, "type": rng.choice(["int", "float", "float", "fraction", "decimal", "tick", "watch", "nano", "femto", "mega", "tinyfraction"]), "origin": origin, "ops": ops,
                "sleeps": sleeps, "reads": reads, "nested": nested, "drain": self.drain(rng)}

    def run(self, case):
        out = runner.Outcome()
        w = World(case, out)
        try:
            w.run()
        except Violation as v:
            out.violation = (v.kind, v.detail)
        except HarnessError:
            raise
        except Exception as e:
            out.violation = ("unexpected-exception", f"{type(e).__name__}: {e}")
        finally:
            seams.outside[0] = None
        out.switches = []
        out.sim_time = w.now_n - case["origin"]
        out.steps = len(out.log)
        out.signature = runner.sig(out.log)
        out.nontrivial = len(out.log) > 3
        return out


class C01(_Single):
    id = "C01"
    runs = {"quick": 72000, "thorough": 1200000}
    rule = ("one case = one random history of schedule/cancel/next/non-blocking/truth/queue operations on a scheduler over a simulated clock, with "
            "early/late/no-progress sleeps, clock jumps and operations executed inside sleeps; non-trivial = more than three observable steps; distinct by event log")
    required_probes = ("queue_changed_during_sleep", "nonblocking_stop", "library_regulator_slept")

    def mix(self, rng):
        return rng.choice([[("sched", .45), ("next", .25), ("cancel", .12), ("nb", .05), ("clock", .08), ("bool", .02), ("queue", .03)],
                           [("sched", .7), ("cancel", .2), ("queue", .05), ("next", .05)],
                           [("sched", .35), ("next", .5), ("clock", .15)]])

    def drain(self, rng):
        return rng.choice(["next", "next", "nb"])


class C06(_Single):
    id = "C06"
    runs = {"quick": 72000, "thorough": 1200000}
    rule = ("one case = one random history in which non-blocking iterations are started, stepped and left at random clock positions, with clock movement "
            "between steps and on reads; any sleep is a violation; non-trivial = more than three observable steps; distinct by event log")
    required_probes = ("nonblocking_stop", "non_blocking_continued", "non_blocking_asked_after_its_end")

    def mix(self, rng):
        return rng.choice([[("sched", .45), ("nb", .35), ("cancel", .1), ("clock", .1)],
                           [("sched", .5), ("nb", .2), ("clock", .25), ("next", .05)]])

    def drain(self, rng):
        return "nb"
