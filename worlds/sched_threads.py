"""
C02, C03 and C05: several simulated threads using one or two schedulers.

Real code: Scheduler, Event, Heap, ThreadSafeRegulator (C02, C03) and the
standard library's threading.Event/Condition; simulated: thread scheduling,
locks' waiting, and time.
"""
from sim import kernel as K
from sim import linear, runner, seams
from sim.kernel import Violation, HarnessError


def gen_sched(rng, k=300):
    opc = rng.random() < .4
    r = rng.random()
    seed = rng.randrange(1 << 30)
    if r < .6:
        return {"mode": "rw", "seed": seed, "p": rng.choice([.5, .3, .1, .05, .02, .01]), "opcodes": opc}
    if r < .95:
        return {"mode": "pct", "seed": seed, "d": rng.choice([1, 2, 3, 5]), "k": rng.choice([60, 150, k, 3 * k]) * (4 if opc else 1), "opcodes": opc}
    return {"mode": "coop", "seed": seed, "p": rng.choice([.2, .5]), "opcodes": False}


class Payload:
    "What is scheduled."
    def __init__(self, tok):
        self.tok = tok
    def __repr__(self):
        return f"<event {self.tok}>"


class Same(Payload):
    "Compares equal to every other."
    def __eq__(self, o):
        return isinstance(o, Same)
    def __lt__(self, o):
        return False
    def __hash__(self):
        return 1


class Hostile(Payload):
    "Must not be compared, hashed or tested."
    __hash__ = None
    def __eq__(self, o):
        raise TypeError("events must not be compared")
    __lt__ = __eq__
    def __bool__(self):
        raise TypeError("events must not be tested")


class False_(Payload):
    def __bool__(self):
        return False


PAYLOADS = (Payload, Same, Hostile, False_)


class ThreadWorld:
    def __init__(self, case, out, make_regulator):
        self.case = case
        self.out = out
        self.mod = seams.fresh("scheduler")
        self.kernel = K.Kernel(case["sched"], now=case.get("origin", 0.0), step_cap=60_000, code_prefixes=seams.CODE_PREFIXES)
        self.reg = make_regulator(self)
        self.scheds = [self.mod.Scheduler(self.reg) for _ in range(case["schedulers"])]
        self.handles = {}
        self.history = []
        self.seq = 0
        self.blocked_in_next = {}          # task id -> scheduler index
        self.in_op = {}                    # task id -> op
        self.model = [dict() for _ in self.scheds]      # certain contents: tok -> (time, prio, n)
        self.uncertain = 0

    def tick(self):
        self.seq += 1
        return self.seq

    def call(self, kind, sid, fn, **kw):
        k = self.kernel
        op = {"kind": kind, "sid": sid, "inv": self.tick(), "res": None, "t0": k.now, "t1": None, "task": k.cur.name}
        op.update(kw)
        self.history.append(op)
        me = k.cur.id
        self.in_op[me] = op
        k.note("inv", kind, sid, kw.get("tok"))
        self.out.stats[kind] += 1
        try:
            fn(op)
        except Violation:
            raise
        except (K.Injected, K.InjectedBase):
            raise
        except Exception as e:
            raise Violation("unexpected-exception", f"{kind}: {type(e).__name__}: {e}")
        finally:
            del self.in_op[me]
            op["res"] = self.tick()
            op["t1"] = k.now
        k.note("res", kind, sid, op.get("tok"), op.get("result"), op.get("ok"))

    def do(self, op):
        k = self.kernel
        kind = op[0]
        if kind == "sleep":
            k.sleep(op[1])
        elif kind == "adv":
            self.out.faults["clock_moved_while_running"] += 1
            k.advance(op[1])
        elif kind == "yield":
            k.point()
        elif kind == "sched":
            _, sid, tok, mode, t, prio = op
            if sid >= len(self.scheds):
                return
            s = self.scheds[sid]
            absolute = mode == "abs"
            def f(o):
                h = s.schedule(PAYLOADS[self.case.get("payload", 0)](tok), t, absolute=absolute, priority=prio)
                self.handles[tok] = h
                o["time"] = t if absolute else None
                if not absolute:
                    o["time"] = k.now + t
            self.call("sched", sid, f, tok=tok, prio=prio, absolute=absolute, rel=t)
        elif kind == "cancel":
            _, tok, via = op
            h = self.handles.get(tok)
            if h is None:
                k.point()
                return
            sid = self.sid_of[tok]
            s = self.scheds[sid]
            def f(o):
                try:
                    h.cancel() if via else s.cancel(h)
                    o["ok"] = True
                except ValueError as e:
                    if isinstance(e, K.Injected):
                        raise
                    o["ok"] = False
            self.call("cancel", sid, f, tok=tok)
        elif kind == "next":
            sid = op[1]
            if sid >= len(self.scheds):
                return
            s = self.scheds[sid]
            me = k.cur.id
            def f(o):
                self.blocked_in_next[me] = sid
                try:
                    ev = next(s)
                    o["result"] = self.token(ev)
                except StopIteration:
                    o["result"] = None
                finally:
                    del self.blocked_in_next[me]
            self.call("next", sid, f)
            return self.history[-1] if False else None
        elif kind == "nb":
            _, sid, n = op
            if sid >= len(self.scheds):
                return
            it = self.scheds[sid].non_blocking()
            for _ in range(n):
                box = []
                def f(o):
                    try:
                        o["result"] = self.token(next(it))
                    except StopIteration:
                        o["result"] = None
                    box.append(o["result"])
                self.call("nb", sid, f)
                if box[0] is None:
                    break
        elif kind == "bool":
            if op[1] >= len(self.scheds):
                return
            s = self.scheds[op[1]]
            def f(o):
                o["result"] = bool(s)
            self.call("bool", op[1], f)
        elif kind == "queue":
            if op[1] >= len(self.scheds):
                return
            s = self.scheds[op[1]]
            def f(o):
                o["raw"] = s.queue
            self.call("queue", op[1], f)
        else:
            raise HarnessError(kind)

    def token(self, ev):
        if type(ev) in PAYLOADS:
            return ev.tok
        raise Violation("phantom-event", f"delivered {ev!r}")

    def run(self):
        k = self.kernel
        case = self.case
        self.sid_of = {}
        for ops in [case.get("setup", [])] + case["tasks"]:
            for op in ops:
                if op[0] == "sched":
                    self.sid_of[op[2]] = op[1]
        def main_of(ops):
            def f():
                for op in ops:
                    self.do(op)
            return f
        for i, ops in enumerate(case["tasks"]):
            k.spawn(f"t{i}", main_of(ops))
        k.run()


def finish(world, out):
    k = world.kernel
    out.switches = k.switches
    out.sim_time = k.now - k.start_time
    out.steps = k.step
    out.log = k.log
    out.signature = runner.sig([(e[1:]) for e in k.log])
    out.nontrivial = k.preemptions > 0
    if k.violation:
        out.violation = k.violation


def check_history(world, out):
    by_handle = {id(h): tok for tok, h in world.handles.items()}
    for sid in range(len(world.scheds)):
        ops = [dict(o) for o in world.history if o["sid"] == sid]
        for o in ops:
            if o["kind"] == "queue":
                r = []
                for h in o["raw"]:
                    tok = by_handle.get(id(h))
                    if tok is None:
                        raise Violation("phantom-event", f"queue lists an event that was never scheduled: {h!r}")
                    r.append(tok)
                o["result"] = r
        try:
            ok = linearizable_or_raise(ops)
        except linear.Undecided:
            out.probes["linearizability_undecided"] += 1
            continue
        if not ok:
            brief = [(o["task"], o["inv"], o["res"], o["kind"], o.get("tok"), o.get("time"), o.get("prio"), o.get("result"), o.get("ok")) for o in ops]
            raise Violation("not-linearizable", f"scheduler {sid}: {brief}")


def linearizable_or_raise(ops):
    # cheap conservation checks first: they give clearer reports
    gone = {}
    for o in ops:
        if o["kind"] in ("next", "nb") and o["result"] is not None or o["kind"] == "cancel" and o["ok"]:
            t = o["result"] if o["kind"] != "cancel" else o["tok"]
            if t in gone:
                raise Violation("delivered-twice", f"event {t}: {gone[t]} and {o['kind']}")
            gone[t] = o["kind"]
    return linear.linearizable(ops)


class C02(runner.Check):
    id = "C02"
    runs = {"quick": 36000, "thorough": 600000}
    lists = (("tasks",), ("tasks", "*"))
    rule = ("one case = 2-4 simulated threads with 1-6 random operations each on one or two schedulers sharing the library's thread-safe regulator, under one "
            "random-walk or priority-based schedule at line or bytecode granularity; non-trivial = at least one preemption; distinct by the order of operation starts and results")
    real = ("big.scheduler (Scheduler, Event, ThreadSafeRegulator)", "big.heap", "threading.Event/Condition of the standard library")
    stubs = ("thread scheduling", "_thread locks", "time")
    assumptions = ("preemption between bytecodes of the library's Python code is the finest interleaving (the GIL build of CPython)",)
    required_probes = ()

    def gen(self, rng, index, tier):
        ns = rng.choice([1, 1, 1, 2])
        nt = rng.choice([2, 3, 3, 4])
        origin = 10.0
        toks = [0]
        adv = rng.random() < .3
        times = [origin + x for x in rng.choice([[0], [0, 1], [0, 1, 1, 2], [-1, 0, 0, 1]])]
        tasks = []
        mix = rng.choice([["sched"] * 4 + ["next"] * 3 + ["cancel"] * 3 + ["nb", "queue", "bool", "sleep"],
                          ["sched"] * 3 + ["nb"] * 3 + ["cancel"] * 2 + ["queue", "queue", "bool"],
                          ["sched"] * 3 + ["cancel"] * 4 + ["next"] * 2,
                          ["sched"] * 5 + ["next"] * 5])
        for t in range(nt):
            ops = []
            for _ in range(rng.randint(1, 6)):
                kind = rng.choice(mix)
                sid = rng.randrange(ns)
                if kind == "sched":
                    mode = "abs" if adv or rng.random() < .6 else "rel"
                    ops.append(["sched", sid, toks[0], mode, rng.choice(times) if mode == "abs" else rng.choice([0, 0, 1, 2]), rng.choice([100, 100, 100, 0, 200])])
                    toks[0] += 1
                elif kind == "cancel":
                    ops.append(["cancel", rng.randrange(toks[0] + 2), rng.random() < .5])
                elif kind == "nb":
                    ops.append(["nb", sid, rng.choice([1, 2, 3])])
                elif kind == "sleep":
                    ops.append(["adv", rng.choice([.5, 1])] if adv and rng.random() < .6 else ["sleep", rng.choice([.5, 1, 2])])
                else:
                    ops.append([kind, sid])
            tasks.append(ops)
        return {"schedulers": ns, "origin": origin, "tasks": tasks, "payload": rng.choice([0, 1, 1, 2, 3]), "sched": gen_sched(rng)}

    def run(self, case):
        out = runner.Outcome()
        w = ThreadWorld(case, out, lambda w: w.mod.ThreadSafeRegulator())
        w.run()
        finish(w, out)
        if not out.violation:
            try:
                check_history(w, out)
                self.final(w)
            except Violation as v:
                out.violation = (v.kind, v.detail)
        return out

    def final(self, w):
        # drain: what is left is exactly what was neither delivered nor cancelled
        for sid, s in enumerate(w.scheds):
            left = set()
            for o in w.history:
                if o["sid"] != sid:
                    continue
                if o["kind"] == "sched":
                    left.add(o["tok"])
            for o in w.history:
                if o["sid"] != sid:
                    continue
                if o["kind"] in ("next", "nb") and o["result"] is not None:
                    left.discard(o["result"])
                if o["kind"] == "cancel" and o["ok"]:
                    left.discard(o["tok"])
            got = [e.event.tok for e in s.queue]
            if sorted(got) != sorted(left):
                raise Violation("lost-or-duplicated", f"scheduler {sid} holds {got} at the end, expected {sorted(left)}")


class C03(runner.Check):
    id = "C03"
    runs = {"quick": 36000, "thorough": 600000}
    lists = (("tasks",), ("tasks", "*"))
    rule = ("one case = 1-3 blocked consumers, 1-3 producers/cancellers on the library's thread-safe regulator in virtual time that moves only when nothing can run; "
            "whenever time is about to move, no consumer may be waiting past a due time or on an empty queue; non-trivial = at least one preemption; distinct by the order of operation starts and results")
    real = C02.real
    stubs = C02.stubs
    assumptions = ("computation takes no simulated time, so any delivery later than its due time is a missed wake-up",)
    required_probes = ("consumer_asleep_at_time_jump", "earlier_event_scheduled_while_asleep", "queue_emptied_while_asleep")

    def gen(self, rng, index, tier):
        ns = rng.choice([1, 1, 1, 2])
        origin = rng.choice([0.0, 10.0, 1024.0])
        tok = [0]
        tasks = []
        def sched(sid, far=False):
            t = tok[0]
            tok[0] += 1
            if rng.random() < .5:
                return ["sched", sid, t, "rel", rng.choice([8, 16, 32] if far else [0, .5, 1, 2, 4]), rng.choice([100, 100, 50])]
            return ["sched", sid, t, "abs", origin + rng.choice([8, 16, 32] if far else [0, .5, 1, 2, 4, 6]), rng.choice([100, 100, 50])]
        for c in range(rng.choice([1, 1, 2, 3])):
            sid = rng.randrange(ns)
            ops = []
            if rng.random() < .8:
                ops.append(sched(sid, far=True))
            for _ in range(rng.randint(1, 4)):
                ops.append(["next", sid])
                if rng.random() < .2:
                    ops.append(rng.choice([["sleep", .5], ["yield"], sched(sid)]))
            tasks.append(ops)
        for p in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                r = rng.random()
                sid = rng.randrange(ns)
                if r < .35:
                    ops.append(sched(sid))
                elif r < .55:
                    ops.append(["cancel", rng.randrange(tok[0] + 1), rng.random() < .5])
                elif r < .75:
                    ops.append(["sleep", rng.choice([.25, .5, 1, 2])])
                elif r < .9:
                    ops.append(["nb", sid, 1])
                else:
                    ops.append(["yield"])
            tasks.append(ops)
        return {"schedulers": ns, "origin": origin, "tasks": tasks, "payload": rng.choice([0, 1, 1, 2, 3]), "sched": gen_sched(rng)}

    def run(self, case):
        out = runner.Outcome()
        w = ThreadWorld(case, out, lambda w: w.mod.ThreadSafeRegulator())
        k = w.kernel
        EPS = 1e-6

        def contents(sid):
            c = {}
            gone = set()
            for o in w.history:
                if o["sid"] != sid:
                    continue
                if o["kind"] == "sched" and o.get("time") is not None:
                    c[o["tok"]] = (o["time"], o["prio"])
                elif o["kind"] in ("next", "nb") and o.get("result") is not None:
                    gone.add(o["result"])
                elif o["kind"] == "cancel" and o.get("ok"):
                    gone.add(o["tok"])
            for t in gone:
                c.pop(t, None)
            return c

        asleep = {}          # task id -> (earliest due when it was last seen asleep)

        def on_idle(when):
            if not w.blocked_in_next:
                return
            busy = [o for t, o in w.in_op.items() if t not in w.blocked_in_next]
            if busy:
                # somebody is stuck inside a non-waiting operation
                raise Violation("operation-blocked", f"{busy[0]['kind']} by {busy[0]['task']} is blocked although nothing else can run")
            out.probes["consumer_asleep_at_time_jump"] += 1
            for tid, sid in w.blocked_in_next.items():
                c = contents(sid)
                if not c:
                    raise Violation("asleep-on-empty", f"{k.tasks[tid].name} sleeps at {k.now} although nothing is scheduled on scheduler {sid}")
                tok, (due, _) = min(c.items(), key=lambda x: x[1])
                if due < when - EPS:
                    raise Violation("missed-wakeup", f"{k.tasks[tid].name} sleeps at {k.now}, event {tok} of scheduler {sid} is due at {due}, next thing that happens is at {when}")
                if tid in asleep and asleep[tid][0] == id(w.in_op[tid]) and due < asleep[tid][1]:
                    out.probes["earlier_event_scheduled_while_asleep"] += 1
                asleep[tid] = (id(w.in_op[tid]), due)
        k.on_idle = on_idle
        w.asleep = asleep
        w.run()
        finish(w, out)
        for o in w.history:
            if o["kind"] == "next" and o.get("result") is None and o["res"] is not None and any(a[0] == id(o) for a in asleep.values()):
                out.probes["queue_emptied_while_asleep"] += 1
        return out


class CheckingLock:
    "Only a context manager; reports its holder."
    def __init__(self, world, ret):
        self.w = world
        self.l = seams.SimLock()
        self.holder = None
        self.ret = ret
        self.entries = 0

    def me(self):
        k = self.w.kernel
        return k.cur.id if k.running and k.cur is not None else -1

    def __enter__(self):
        if self.holder is not None and self.holder == self.me():
            raise Violation("recursive-lock", "the scheduler entered the regulator's lock while holding it")
        self.l.acquire()
        self.holder = self.me()
        self.entries += 1
        return self if self.ret else None

    def __exit__(self, *exc):
        if self.holder != self.me():
            raise Violation("foreign-unlock", "the lock was left by a thread that does not hold it")
        self.holder = None
        self.l.release()
        return None


class C05(runner.Check):
    id = "C05"
    runs = {"quick": 36000, "thorough": 600000}
    lists = (("tasks",), ("tasks", "*"))
    rule = ("one case = 1-4 simulated threads with random operations on one or two schedulers over a minimal conforming regulator that checks every call it receives; "
            "non-trivial = at least one preemption or one thread with a sleep; distinct by the order of operation starts, regulator calls and results")
    real = ("big.scheduler.Scheduler", "big.scheduler.Event", "big.heap")
    stubs = ("the regulator", "thread scheduling", "time")
    assumptions = C02.assumptions
    required_probes = ("slept", "woken", "overslept")

    def gen(self, rng, index, tier):
        c = C02().gen(rng, index, tier)
        if rng.random() < .3:
            c["tasks"] = c["tasks"][:1]
        for ops in c["tasks"]:
            for op in ops:
                if op[0] == "sched" and op[3] == "abs" and rng.random() < .4:
                    op[4] += rng.choice([2, 4])
        c["reg"] = rng.choice(["full", "property", "nosub"])
        c["late"] = [rng.choice([0, 0, .25, 1, 3]) for _ in range(5)] if rng.random() < .4 else []
        return c

    def run(self, case):
        out = runner.Outcome()

        def make(w):
            lock = CheckingLock(w, case["reg"] != "full")
            k = w.kernel
            sleepers = []

            def held():
                return lock.holder is not None and lock.holder == lock.me()

            def now(self=None):
                if not held():
                    raise Violation("clock-without-lock", "the clock was read by a thread that does not hold the regulator's lock")
                k.point() if k.running else None
                return k.now

            gen = [0]
            nsleeps = [0]

            def wake(self=None):
                if not held():
                    raise Violation("wake-without-lock", "sleepers were woken by a thread that does not hold the regulator's lock")
                gen[0] += 1
                out.probes["woken"] += bool(sleepers)
                for t in sleepers:
                    k.unblock(t)
                sleepers.clear()

            def do_sleep(interval, g):
                if held():
                    raise Violation("sleep-with-lock", "slept while holding the regulator's lock")
                if not interval >= 0:
                    raise Violation("negative-sleep", f"sleep({interval!r})")
                out.probes["slept"] += 1
                k.point()
                if gen[0] != g or interval == 0:
                    return
                sleepers.append(k.cur)
                me = k.cur
                # a conforming sleep may also return a little early, or late
                late = case["late"][nsleeps[0] % len(case["late"])] if case["late"] else 0
                nsleeps[0] += 1
                out.faults["overslept"] += late > 0
                out.probes["overslept"] += late > 0
                k.block(k.now + min(interval, 1.0) + late, where="sleep")
                if me in sleepers:
                    sleepers.remove(me)

            if case["reg"] == "nosub":
                class Reg:
                    pass
            else:
                class Reg(w.mod.Regulator):
                    pass
            Reg.now = now
            Reg.wake = wake
            if case["reg"] == "property":
                Reg.lock = property(lambda self: lock)
                Reg.sleep = property(lambda self: (lambda interval, g=gen[0]: do_sleep(interval, g)))
            else:
                Reg.lock = lock
                Reg.sleep = lambda self, interval: do_sleep(interval, gen[0])
            w.lock = lock
            return Reg()

        w = ThreadWorld(case, out, make)
        w.run()
        finish(w, out)
        if not out.violation:
            try:
                if w.lock.holder is not None:
                    raise Violation("lock-left-held", "the lock is still held after every operation returned")
                if w.lock.entries == 0 and w.history:
                    raise Violation("lock-never-used", "no operation entered the regulator's lock")
                check_history(w, out)
            except Violation as v:
                out.violation = (v.kind, v.detail)
        out.nontrivial = out.nontrivial or out.probes["slept"] > 0
        return out
