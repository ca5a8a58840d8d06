"""
C28, C29: logs driven by a simulated clock that jumps, stalls and fails, with
readers that iterate while logging goes on, and printing to an output that
fails.
"""
import re

from sim import kernel as K, runner, seams
from sim.kernel import Violation, HarnessError, Injected, InjectedBase, injected, BASES, ORDINARY
from worlds.sched_threads import gen_sched


class ClockFailure(Injected):
    pass


CLOCK_FAILURES = ClockFailure, InjectedBase


class Clock:
    def __init__(self, case, out):
        self.now = case["origin"]
        self.steps = case["steps"]
        self.fail = set(case["clock_fails"])
        self.n = 0
        self.exc = case["exc"]
        self.reads = []
        self.out = out

    def __call__(self):
        n = self.n
        self.n += 1
        d = self.steps[n % len(self.steps)] if self.steps else 1
        self.now += d
        if d == 0:
            self.out.faults["clock_stalled"] += 1
        elif d < 0:
            self.out.faults["clock_went_back"] += 1
        elif d > 10 ** 10:
            self.out.faults["clock_jumped"] += 1
        if n in self.fail:
            self.out.faults["clock_failed"] += 1
            raise injected(self.exc, "clock", ClockFailure)
        self.reads.append(self.now)
        return self.now

    # the time functions, for a log that uses its default clock
    def monotonic_ns(self):
        return self()
    def wall(self):
        return 1_700_000_000 + (-1) ** self.n * (self.n * 7919 % 1000)


def expand(ops):
    "Some histories repeat an operation very often."
    for op in ops:
        if op[0] == "times":
            for _ in range(op[1]):
                yield from op[2:]
        else:
            yield op


class FalsyClock(Clock):
    def __bool__(self):
        return False


class Odd:
    def __len__(self):
        raise TypeError("no length")
    def __repr__(self):
        return "odd"


class Generation:
    "What the log holds since the last reset."
    def __init__(self, start):
        self.start = start
        self.events = [(0, "log start", {0})]
        self.depths = {0}


class Reader:
    def __init__(self, it, gen, length):
        self.it = it
        self.allowed = [[gen, length]]       # generations it may be reading, with the least length it must deliver
        self.got = []
        self.done = False


class LogWorld:
    def __init__(self, case, out):
        self.case, self.out = case, out
        self.clock = (FalsyClock if case.get("falsy") else Clock)(case, out)
        self.mod = seams.fresh("log")
        self.log = None
        self.gen = None
        self.readers = []
        self.suspect = False          # a reset failed half way; only another reset counts
        self.k = None
        self.text = 0

    def note(self, *e):
        self.out.log.append(e)

    # -- operations -----------------------------------------------------------

    def make(self):
        for _ in range(4):
            try:
                if self.case.get("default"):
                    seams.outside[0] = self.clock
                    self.out.probes["default_clock"] += 1
                    self.log = self.mod.Log()
                else:
                    self.log = self.mod.Log(self.clock) if self.case["positional"] else self.mod.Log(clock=self.clock)
                break
            except CLOCK_FAILURES:
                self.note("no log")
        if self.log is None:
            return False
        if not self.clock.reads:
            raise Violation("wrong-time", "making a log never looked at the clock it was given")
        self.gen = Generation(self.clock.reads[-1])
        return True

    def event_time(self, before, what):
        reads = self.clock.reads[before:]
        if not reads:
            raise Violation("wrong-time", f"{what} never looked at the clock")
        return reads

    def append(self, text, depths, before, what):
        times = self.event_time(before, what)
        self.gen.events.append((set(t - self.gen.start for t in times), text, set(depths)))

    def op(self, op):
        g = self.gen
        before = len(self.clock.reads)
        what = op[0]
        out = self.out
        out.stats[what] += 1
        if self.suspect and what in ("log", "enter", "exit", "read", "check"):
            return
        try:
            if what == "log":
                text = op[1]
                self.log(text)
                self.append(text, g.depths, before, "logging")
            elif what == "odd":
                # not a string.  it may be accepted or refused, but not both
                o = [None, 5, 2.5, Odd()][op[1] % 4]
                try:
                    self.log(o)
                except CLOCK_FAILURES:
                    raise
                except (TypeError, ValueError, AttributeError):
                    out.faults["odd_event_refused"] += 1
                else:
                    self.append(o, g.depths, before, "logging")
            elif what == "enter":
                self.log.enter(op[1])
                self.append(op[1] + " start", g.depths, before, "enter")
                g.depths = {d + 1 for d in g.depths}
                g.open = getattr(g, "open", []) + [op[1]]
            elif what == "exit":
                names = getattr(g, "open", [])
                if not names or len(g.depths) > 1:
                    # nothing certain to leave
                    if not names and g.depths == {0}:
                        try:
                            self.log.exit()
                        except CLOCK_FAILURES:
                            raise
                        except Exception:
                            out.probes["exit_without_enter"] += 1
                        else:
                            self.suspect = True
                    return
                self.log.exit()
                g.depths = {d - 1 for d in g.depths}
                g.open = names[:-1]
                self.append(names[-1] + " end", g.depths, before, "exit")
            elif what == "reset":
                try:
                    self.log.reset()
                except CLOCK_FAILURES:
                    self.suspect = True
                    for r in self.readers:
                        r.done = True
                    raise
                self.suspect = False
                self.event_time(before, "reset")
                self.gen = Generation(self.clock.reads[-1])
                out.faults["reset"] += 1
                for r in self.readers:
                    if not r.done and not r.got:
                        r.allowed.append([self.gen, 1])
            elif what == "open":
                self.readers.append(Reader(iter(self.log), g, len(g.events)))
                if self.suspect:
                    self.readers[-1].done = True
            elif what == "read":
                live = [r for r in self.readers if not r.done]
                if live:
                    self.read(live[op[1] % len(live)], op[2])
            elif what == "check":
                r = Reader(iter(self.log), g, len(g.events))
                self.read(r, None)
        except CLOCK_FAILURES:
            self.note(what, "clock failed")
            return
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation("unexpected-exception", f"{op}: {type(e).__name__}: {e}")
        self.note(*op)

    def read(self, r, n):
        "Take n items (or all) of a reader and check them."
        while n is None or n > 0:
            try:
                item = next(r.it)
            except StopIteration:
                r.done = True
                self.verify(r, True)
                return
            r.got.append(tuple(item))
            if n is not None:
                n -= 1
            if len(r.got) > 10000:
                raise Violation("no-progress", "iteration does not end")
        self.verify(r, False)
        if len(r.got) > 0:
            self.out.probes["partial_read"] += 1

    def matches(self, got, gen, least, ended):
        "None, or why the items cannot come from this generation."
        ev = gen.events
        if len(got) > len(ev):
            return f"{len(got)} events, {len(ev)} were logged"
        if ended and len(got) < least:
            return f"{len(got)} events, {least} were logged before it started"
        starts = [g[0] for g in got]
        for i, (start, elapsed, text, depth) in enumerate(got):
            t, etext, depths = ev[i]
            ok = {t} if isinstance(t, int) else t
            if start not in ok:
                return f"event {i} ({etext!r}) at time {start}, expected {sorted(ok)}"
            if text != etext:
                return f"event {i} is {text!r}, expected {etext!r}"
            if depth not in depths:
                return f"event {i} ({etext!r}) at depth {depth}, expected {sorted(depths)}"
            if i + 1 < len(got):
                if elapsed != starts[i + 1] - start:
                    return f"event {i} ({etext!r}) lasts {elapsed}, the next one starts {starts[i + 1] - start} later"
            elif ended:
                if elapsed != 0:
                    return f"the last event lasts {elapsed}"
            elif i + 1 < len(ev):
                nt = ev[i + 1][0]
                if elapsed != 0 and not any(elapsed == x - start for x in ({nt} if isinstance(nt, int) else nt)):
                    return f"event {i} ({etext!r}) lasts {elapsed}"
            elif elapsed != 0:
                return f"the last event lasts {elapsed}"
        return None

    def verify(self, r, ended):
        why = [self.matches(r.got, g, n, ended) for g, n in r.allowed]
        if all(why):
            raise Violation("wrong-timeline", f"iterating gave {r.got!r}: {why[0]}")
        r.allowed = [a for a, w in zip(r.allowed, why) if not w]

    def run(self):
        if not self.make():
            return
        self.op(["check"])
        for op in expand(self.case["ops"]):
            self.op(op)
            if self.case["check_always"]:
                self.op(["check"])
        for r in self.readers:
            if not r.done:
                self.read(r, None)
        self.op(["check"])


def run_threads(case, out):
    "One thread logs, others iterate at the same time."
    w = LogWorld(case, out)
    k = K.Kernel(case["sched"], step_cap=60_000, code_prefixes=seams.CODE_PREFIXES)
    if not w.make():
        return k
    history = [[w.gen, 0]]
    busy = [True]

    def logger():
        for op in case["ops"]:
            if op[0] in ("open", "read"):
                continue
            # readers see events only once they are certain, so tell them first
            w.op(op)
            if w.gen is not history[-1][0]:
                history.append([w.gen, 0])
            k.note(*op)
        busy[0] = False

    def reader():
        for _ in range(6):
            if not busy[0]:
                break
            first = len(history) - 1
            least = len(w.gen.events)
            it = iter(w.log)
            got = []
            try:
                for item in it:
                    got.append(tuple(item))
                    k.point()
            except (Violation, HarnessError):
                raise
            except Exception as e:
                raise Violation("unexpected-exception", f"iterating: {type(e).__name__}: {e}")
            checks.append((first, len(history) - 1, least, got, w.suspect))
            k.note("read", len(got))
            out.probes["read_while_logging"] += busy[0]
            k.point()

    checks = []
    k.spawn("logger", logger)
    for i in range(case["readers"]):
        k.spawn(f"reader{i}", reader)
    k.run()
    if k.violation:
        return k
    for first, last, least, got, suspect in checks:
        if suspect or w.suspect or out.faults["clock_failed"]:
            continue
        gens = [g for g, _ in history[first:last + 2]]
        why = [w.matches(got, g, least if i == 0 and len(gens) == 1 else 1, True) for i, g in enumerate(gens)]
        if all(why):
            raise Violation("wrong-timeline", f"iterating while logging gave {got!r}: {why[0]}")
    w.op(["check"])
    return k


def gen_clock(rng, backwards=True):
    style = rng.random()
    big = [1, 999, 10 ** 6, 10 ** 9 - 1, 10 ** 9, 10 ** 9 + 1, 59 * 10 ** 9, 3600 * 10 ** 9, 86400 * 365 * 10 ** 9, 12345678901]
    if style < .3:
        steps = [rng.choice(big) for _ in range(rng.randint(1, 8))]
    elif style < .5:
        steps = [rng.randrange(1, 10 ** rng.randint(1, 12)) for _ in range(rng.randint(1, 8))]
    elif style < .7:
        steps = [rng.choice([0, 0, 1, 5]) for _ in range(5)]
    else:
        steps = [rng.choice(big + [0]) for _ in range(8)]
        if backwards:
            steps += [-rng.choice(big)]
            rng.shuffle(steps)
    return steps


class _Log(runner.Check):
    lists = (("ops",), ("steps",), ("clock_fails",), ("print_fails",), ("prints",))
    real = ("big.log.Log",)
    time_unit = "simulated seconds"

    def gen_ops(self, rng, n, weights):
        ops = []
        words = ["a", "event", "", "x" * 30, "two words", "\u00e9v", "n1", "n2", "n3", "log start", "b end"]
        for _ in range(n):
            w = rng.choices(list(weights), list(weights.values()))[0]
            if w in ("log", "enter"):
                ops.append([w, rng.choice(words)])
            elif w == "read":
                ops.append([w, rng.randrange(4), rng.choice([None, 1, 2, 3])])
            elif w == "odd":
                ops.append([w, rng.randrange(4)])
            else:
                ops.append([w])
        return ops

    def long(self, rng, case, chance):
        "Make some histories long, and some clocks and outputs false."
        if rng.random() < .06:
            case["falsy"] = 1
        if rng.random() < chance:
            case["check_always"] = 0
            body = self.gen_ops(rng, rng.choice([1, 1, 2, 3]), {"log": 6, "enter": 3, "exit": 2})
            if not any(o[0] == "log" for o in body) and rng.random() < .5:
                body.append(["log", "again"])
            case["ops"].insert(rng.randint(0, len(case["ops"])), ["times", rng.choice([40, 70, 140, 270, 270, 520, 1100])] + body)
        return case

    def finish(self, out, case, w):
        out.switches = out.switches or []
        out.sim_time = sum(abs(x) for x in case["steps"]) / 1e9
        out.steps = out.steps or len(out.log)
        out.signature = runner.sig((out.log[:300], case["steps"], case["origin"], case.get("prints")))


class C28(_Log):
    id = "C28"
    stubs = ("the clock", "thread scheduler (in the threaded part)")
    runs = {"quick": 72000, "thorough": 1500000}
    rule = ("one case = a log over a simulated clock with any origin that advances, jumps, stalls, goes back and fails, and up to 40 operations (log, enter, exit, reset, open and advance iterators), "
            "or one logging thread and up to 3 iterating threads preempted inside the library; every iteration compared with the recorded clock; non-trivial = a clock fault, a reset or a preemption; distinct by operations and clock")
    assumptions = ("one thread logs", "after a failed reset only another reset counts")
    required_probes = ("default_clock", "partial_read", "exit_without_enter", "read_while_logging")

    def gen(self, rng, index, tier):
        threads = rng.random() < .25
        case = {"origin": rng.choice([0, 0, 1, 10 ** 9, 1_700_000_000 * 10 ** 9, rng.randrange(10 ** 15), -5 * 10 ** 9]), "steps": gen_clock(rng), "positional": rng.randrange(2), "exc": rng.choice(ORDINARY + list(BASES)),
                "clock_fails": [], "ops": self.gen_ops(rng, rng.choice([0, 3, 8, 15, 40]) if not threads else rng.choice([3, 6, 12]),
                                                       {"log": 6, "enter": 3, "exit": 3, "reset": 1, "open": 2, "read": 5, "check": 1, "odd": 0 if threads else .4}),
                "check_always": int(rng.random() < .2), "threads": int(threads), "readers": rng.randint(1, 3)}
        if threads:
            case["sched"] = gen_sched(rng, 200)
            case["check_always"] = 0
            case["ops"] = [o for o in case["ops"] if o[0] != "check"]
        elif rng.random() < .15:
            case["default"] = 1
            case["steps"] = gen_clock(rng, False)
        elif rng.random() < .25:
            case["clock_fails"] = [rng.randrange(20) for _ in range(rng.choice([1, 2, 4]))]
        if not threads:
            self.long(rng, case, .012)
        return case

    def run(self, case):
        out = runner.Outcome()
        w = None
        try:
            if case["threads"]:
                k = run_threads(case, out)
                out.switches = k.switches
                out.steps = k.step
                out.faults["preemption"] += len(k.switches)
                if k.violation:
                    raise Violation(*k.violation)
            else:
                w = LogWorld(case, out)
                w.run()
        except Violation as v:
            out.violation = (v.kind, v.detail)
        finally:
            seams.outside[0] = None
        self.finish(out, case, w)
        out.nontrivial = bool(out.faults) and len(out.log) > 1
        return out


class OutputFailure(Injected):
    pass


class Falsy:
    "An output that is false."
    def __init__(self, f):
        self.f = f
    def __call__(self, *a, **k):
        return self.f(*a, **k)
    def __bool__(self):
        return False


class Printing(LogWorld):
    def print_once(self, spec, fails):
        out = self.out
        lines = []
        n = [0]

        def sink(*args, sep=" ", end="\n", file=None, flush=False):
            n[0] += 1
            if n[0] > 3000 + 20 * len(want):
                raise Violation("no-progress", "printing does not end")
            if n[0] in relog:
                # an output that is itself logged
                out.probes["logged_while_printing"] += 1
                self.op(["log", f"printed {n[0]}"])
            if fails is not None and n[0] == fails:
                out.faults["output_failed"] += 1
                raise injected(self.case["exc"], "output", OutputFailure)
            lines.append((sep or "").join(str(a) for a in args) + ("" if end is None else end))

        kw = {}
        for key in ("title", "headings", "indent", "seconds_width", "fractional_width"):
            if key in spec:
                kw[key] = spec[key]
        want = [tuple(i) for i in self.log]
        builtin = spec.get("builtin")
        relog = spec.get("relog", ())
        err = None
        before = len(self.clock.reads)
        try:
            if builtin:
                import builtins
                saved = builtins.print
                builtins.print = sink
                try:
                    self.log.print(**kw)
                finally:
                    builtins.print = saved
            else:
                self.log.print(print=Falsy(sink) if spec.get("falsy") else sink, **kw)
        except (OutputFailure, InjectedBase) as e:
            err = e
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation("unexpected-exception", f"print({kw}): {type(e).__name__}: {e}")
        out.stats["print"] += 1
        self.note("print", kw, lines if err is None else "output failed")
        again = [tuple(i) for i in self.log]
        if not relog and again != want or len(again) < len(want) or any(a[0] != b[0] or a[2:] != b[2:] for a, b in zip(again, want)):
            raise Violation("log-changed", f"printing changed the log from {want!r} to {again!r}")
        if fails is not None and n[0] >= fails and err is None:
            raise Violation("hidden-error", "the output failed but print returned")
        rows = "".join(lines).split("\n")
        if rows and rows[-1] == "":
            rows.pop()
        head = (1 if kw.get("title", "[event log]") else 0) + (2 if kw.get("headings", True) else 0)
        # what was logged meanwhile may or may not be printed
        printed = len(rows) - head
        if err is None and not len(want) <= printed <= len(again):
            raise Violation("wrong-rows", f"print({kw}) printed {len(rows) - head} rows for {len(want)} events: {rows!r}")
        if err is not None and printed > len(again):
            raise Violation("wrong-rows", f"print({kw}) printed too many rows: {rows!r}")
        if head and kw.get("title", "[event log]") and rows and rows[0] != kw.get("title", "[event log]"):
            raise Violation("wrong-rows", f"the title is {rows[0]!r}")
        for i, (row, (start, elapsed, event, depth)) in enumerate(zip(rows[head:], again)):
            self.check_row(row, start, elapsed if i + 1 < printed or i + 1 >= len(again) else None, event, depth, kw)
        want = again
        if self.gen is not None and not self.suspect:
            why = self.matches(want, self.gen, len(self.gen.events), True)
            if why:
                raise Violation("wrong-timeline", why)

    def check_row(self, row, start, elapsed, event, depth, kw):
        fw = kw.get("fractional_width", 9)
        indent = kw.get("indent", 2)
        m = re.match(r"( *)(\d+)\.(\d*) +(\d+)\.(\d*)  (.*)\Z", row, re.S)
        if not m:
            raise Violation("wrong-row", f"print({kw}): row {row!r} for event {event!r} at {start}")
        lead, s1, f1, s2, f2, text = m.groups()
        if len(lead) != indent:
            raise Violation("wrong-row", f"print({kw}): row {row!r} is not indented by {indent}")
        for what, s, f, t in (("start", s1, f1, start), ("elapsed", s2, f2, elapsed)):
            if t is None:
                # the last row of an iteration during which more was logged
                continue
            secs, ns = divmod(t, 10 ** 9)
            full = f"{ns:09d}"
            ok = int(s) == secs and (f == full[:fw] if fw <= 9 else f.ljust(fw, "0") == full.ljust(fw, "0"))
            if not ok:
                raise Violation("wrong-time", f"print({kw}): {what} of event {event!r} is {t} ns, printed as {s}.{f}")
            self.out.probes["time_above_a_second"] += secs > 0
        if text != " " * (indent * depth) + event:
            raise Violation("wrong-row", f"print({kw}): row {row!r} for event {event!r} at depth {depth}")

    def run(self):
        if not self.make():
            return
        prints = list(self.case["prints"])
        for op in expand(self.case["ops"]):
            if op[0] == "print":
                if prints and not self.suspect:
                    spec = prints.pop(0)
                    self.print_once(spec, spec.get("fails"))
                continue
            self.op(op)
        if not self.suspect:
            for spec in prints:
                self.print_once(spec, spec.get("fails"))
            self.print_once({}, None)


class C29(_Log):
    id = "C29"
    stubs = ("the clock", "the output, which may fail at any row")
    runs = {"quick": 90000, "thorough": 2000000}
    rule = ("one case = up to 40 log operations over a clock stepping from 0 ns to a year, and 1-3 prints with random formatting options, some with an output that fails at some row; every row parsed and compared with iteration; "
            "non-trivial = at least one event and one print; distinct by operations, clock and options")
    assumptions = ("the clock does not go back while a printed log runs (elapsed times are not negative)", "events contain no line ends")
    required_probes = ("time_above_a_second", "logged_while_printing")

    def gen(self, rng, index, tier):
        prints = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            s = {}
            if rng.random() < .5:
                s["title"] = rng.choice([None, "", "My log", "[event log]"])
            if rng.random() < .5:
                s["headings"] = rng.choice([True, False])
            if rng.random() < .5:
                s["indent"] = rng.choice([0, 1, 2, 4, 8])
            if rng.random() < .5:
                s["seconds_width"] = rng.choice([0, 1, 2, 3, 5, 12])
            if rng.random() < .5:
                s["fractional_width"] = rng.choice([0, 1, 3, 6, 8, 9, 9, 10, 12])
            if rng.random() < .3:
                s["fails"] = rng.randint(1, 15)
            if rng.random() < .15:
                s["falsy"] = 1
            if rng.random() < .15:
                s["builtin"] = 1
            if rng.random() < .15:
                s["relog"] = sorted({rng.randint(1, 12) for _ in range(rng.choice([1, 2, 5]))})
            prints.append(s)
        case = {"origin": rng.choice([0, 1, 10 ** 9, 1_700_000_000 * 10 ** 9, rng.randrange(10 ** 15)]), "steps": gen_clock(rng, False), "positional": rng.randrange(2), "exc": rng.choice(ORDINARY + list(BASES)),
                "clock_fails": [rng.randrange(1, 20)] if rng.random() < .1 else [],
                "ops": self.gen_ops(rng, rng.choice([0, 3, 8, 15, 40]), {"log": 6, "enter": 3, "exit": 3, "reset": .5, "print": 1}), "prints": prints, "check_always": 0}
        return self.long(rng, case, .006)

    def run(self, case):
        out = runner.Outcome()
        w = Printing(case, out)
        try:
            w.run()
        except Violation as v:
            out.violation = (v.kind, v.detail)
        self.finish(out, case, w)
        out.nontrivial = out.stats["print"] > 0 and len(out.log) > 1
        return out
