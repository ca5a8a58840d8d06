"""
C16, C17, C18: state machines whose hooks, observers and dispatched events run
scripted actions: further transitions, edits of the observer list, failures.
Each case is run on the real StateManager, accessor and dispatch and on a small
reference model written from the documentation; the traces must be equal.
C18 also runs threads that use one machine while another thread transitions it.
"""
from sim import kernel as K
from sim import runner, seams
from sim.kernel import Violation, HarnessError, Injected, InjectedOS, InjectedBase
from worlds.sched_threads import gen_sched

EXCS = {"plain": Injected, "os": InjectedOS, "base": InjectedBase, "value": ValueError, "type": TypeError, "attr": AttributeError, "stop": StopIteration,
        "runtime": RuntimeError, "recursion": RecursionError, "exit": SystemExit, "genexit": GeneratorExit}


# -- the reference model, from the documentation -------------------------------

class RefTransitionError(RecursionError):
    pass


class RefManager:
    def __init__(self, state, *, on_enter="on_enter", on_exit="on_exit", state_class=None):
        self.on_enter, self.on_exit, self.state_class = on_enter, on_exit, state_class
        self._state = self._next = None
        self.observers = []
        self.state = state

    state = property(lambda self: self._state, lambda self, s: self._go(s))
    next = property(lambda self: self._next)

    def _go(self, s):
        if self.state_class is not None and not isinstance(s, self.state_class):
            raise TypeError
        if s is None:
            raise ValueError
        if self._next is not None or s is self._state:
            raise RefTransitionError
        self._next = s
        done = False
        try:
            self._hook(self.on_exit)
            for o in list(self.observers):
                o(self)
            done = True
        finally:
            if done:
                self._state = s
            self._next = None
        self._hook(self.on_enter)

    def _hook(self, name):
        if name:
            f = getattr(self._state, name, None)
            if f is not None:
                f()


# -- states ------------------------------------------------------------------

class Call:
    "A callable object that is false and must not be compared."
    def __init__(self, f):
        self.f = f
    def __call__(self, *a, **k):
        return self.f(*a, **k)
    def __bool__(self):
        return False
    def __eq__(self, o):
        raise Injected("compared a hook")
    __hash__ = None


def make_states(w):
    class Base:
        pass

    class Hooked(Base):
        def __init__(self, n):
            self.n = n
        def on_enter(self):
            w.activated("on_enter", self.n)
        def on_exit(self):
            w.activated("on_exit", self.n)
        def enter(self):
            w.activated("enter", self.n)
        def leave(self):
            w.activated("leave", self.n)
        def __repr__(self):
            return f"S{self.n}"
        def ev(self, *a, **k):
            return w.event("ev", self.n, a, k)
        def on_ev(self, *a, **k):
            return w.event("on_ev", self.n, a, k)
        def on_ev_now(self, *a, **k):
            return w.event("on_ev_now", self.n, a, k)
        def ping(self, *a, **k):
            return w.event("ping", self.n, a, k)
        def on_ping(self, *a, **k):
            return w.event("on_ping", self.n, a, k)
        def on_ping_now(self, *a, **k):
            return w.event("on_ping_now", self.n, a, k)

    class Same(Hooked):
        "All of these are equal."
        def __eq__(self, o):
            return isinstance(o, Same)
        def __hash__(self):
            return 1

    class Falsy(Hooked):
        def __bool__(self):
            return False

    class Hostile(Hooked):
        def __eq__(self, o):
            raise Injected("compared a state")
        def __ne__(self, o):
            raise Injected("compared a state")
        __hash__ = None

    class Bare:
        def __repr__(self):
            return "Bare"

    class NoneHooks(Base):
        on_enter = on_exit = enter = leave = None

    class Attr(Base):
        def __init__(self, n):
            self.on_enter = Call(lambda: w.activated("on_enter", n))
            self.on_exit = Call(lambda: w.activated("on_exit", n))
            self.ev = Call(lambda *a, **k: w.event("ev", n, a, k))

    class Looked(Base):
        "Looking up a hook can fail."
        def __init__(self, n):
            self.n = n
        def __getattr__(self, name):
            if name in ("on_enter", "on_exit", "enter", "leave"):
                if w.nacts % 4 == 0:
                    e = Injected("looking up a hook")
                    w.tags.append((e, "looking up a hook"))
                    w.out.faults["hook_lookup_failed"] += 1
                    raise e
                return lambda: w.activated(name, self.n)
            if name in EVENTS.values():
                return lambda *a, **k: w.event(name, self.n, a, k)
            raise AttributeError(name)

    return Base, [Hooked(0), Hooked(1), Same(2), Same(3), Falsy(4), Falsy(5), Hostile(6), Hooked(7), Bare(), NoneHooks(), Attr(10), 0, "", False, "text", (1, 2), Looked(16)]

NSTATES = 17


class Obs:
    def __init__(self, w, n):
        self.w, self.n = w, n
    def __call__(self, *args):
        w = self.w
        if len(args) != 1 or not any(args[0] is m for m in w.managers):
            w.log.append(("observer-args", self.n, len(args)))
        w.activated("observer", self.n)
    def __repr__(self):
        return f"O{self.n}"


class EqObs(Obs):
    def __eq__(self, o):
        return isinstance(o, EqObs)
    def __hash__(self):
        return 2


class FalsyObs(Obs):
    def __bool__(self):
        return False


def long_history(ops):
    "Some histories repeat operations very often."
    for op in ops:
        if op[0] == "times":
            for _ in range(op[1]):
                yield from op[2:]
        else:
            yield op


class World:
    def __init__(self, case, out, manager, make_machine, errors):
        self.case, self.out = case, out
        self.log = []
        self.nacts = 0
        self.cap = 300
        self.serial = 0
        self.tags = []
        self.managers = []
        self.machines = []
        self.held = {}
        self.errors = errors
        self.base, self.states = make_states(self)
        self.obs = [Obs(self, 0), Obs(self, 1), EqObs(self, 2), EqObs(self, 3), FalsyObs(self, 4)]
        world = self

        class Manager(manager):
            def __init__(self, *a, **k):
                world.managers.append(self)
                super().__init__(*a, **k)
        self.Manager = Manager
        self.make_machine = make_machine
        self.depth = 0

    def sid(self, s):
        for n, x in enumerate(self.states):
            if x is s:
                return n
        return None if s is None else "unknown"

    def look(self):
        out = []
        for m in self.managers:
            try:
                out.append((self.sid(m.state), self.sid(m.next), tuple(getattr(o, "n", "?") for o in m.observers)))
            except AttributeError:
                out.append("unborn")
        return tuple(out)

    # a hook, observer or event method was called
    def activated(self, kind, n):
        self.log.append(("call", kind, n) + self.look())
        self.out.stats[kind] += 1
        k = self.nacts
        self.nacts += 1
        if k > self.cap:
            raise Violation("runaway", "callbacks do not end")
        acts = self.case["acts"]
        if k < len(acts):
            self.depth += 1
            try:
                for a in acts[k]:
                    self.act(a)
            finally:
                self.depth -= 1
        self.log.append(("return", kind, n) + self.look())

    def event(self, kind, n, a, kw):
        self.log.append(("event", kind, n, repr(a), repr(sorted(kw.items()))))
        self.activated("event_" + kind, n)
        self.serial += 1
        r = ("result", self.serial)
        self.result = r
        return r

    def classify(self, e):
        "Documented exceptions are one class: which of several applicable ones is raised is open."
        for x, t in self.tags:
            if x is e:
                return t
        return type(e).__name__

    def allowed(self, m, s):
        "The exceptions documented for assigning s now."
        a = []
        try:
            cls, nxt, cur = m.state_class, m.next, m.state
        except AttributeError:
            return a
        if cls is not None and not isinstance(s, cls):
            a.append(TypeError)
        if s is None:
            a.append(ValueError)
        if nxt is not None or s is cur:
            a.append(self.errors)
        return a

    def attempt(self, label, fn, catch, allowed=()):
        try:
            r = fn()
        except (Violation, HarnessError):
            raise
        except BaseException as e:
            if type(e).__module__ == "sim.runner":
                raise
            if allowed and type(e) in allowed and not any(x is e for x, t in self.tags):
                self.tags.append((e, "illegal"))
            self.log.append((label, "raised", self.classify(e)) + self.look())
            if self.depth:
                self.out.probes["exception_in_callback"] += 1
            if not catch:
                raise
            return None
        self.log.append((label, "ok") + self.look())
        return r

    def act(self, a):
        kind = a[0]
        out = self.out
        if kind == "raise":
            self.serial += 1
            e = EXCS[a[1]](f"injected {self.serial}")
            self.tags.append((e, f"injected {self.serial}"))
            out.faults["callback_raised_" + a[1]] += 1
            raise e
        if not self.managers:
            return
        mi = a[1] % len(self.managers)
        m = self.managers[mi]
        if kind == "set":
            s = None if a[2] is None else self.states[a[2]]
            allowed = self.allowed(m, s)
            if allowed and m.next is not None:
                out.probes["transition_during_transition"] += 1
            def f():
                m.state = s
            self.attempt(("set", mi, a[2]), f, a[3], allowed)
        elif kind == "obs":
            o = self.obs[a[3]]
            how = a[2]
            l = m.observers if hasattr(m, "observers") else []
            if how == "append":
                l.append(o)
            elif how == "insert":
                l.insert(0, o)
            elif how == "remove":
                for i, x in enumerate(l):
                    if x is o:
                        del l[i]
                        break
            elif how == "clear":
                l.clear()
            elif how == "reverse":
                l.reverse()
            elif how == "assign":
                m.observers = [o] + list(l)[:2]
            elif how == "replace":
                if l:
                    l[a[4] % len(l)] = o
            elif how == "pop":
                if l:
                    l.pop(a[4] % len(l))
            if self.depth:
                out.probes["observers_edited_in_callback"] += 1
            self.log.append(("obs", how, a[3]) + self.look())
        elif kind == "edit":
            # a state's hook or event is replaced, removed or put back
            st = self.states[a[2]]
            if hasattr(st, "__dict__"):
                name, n, how = a[3], a[2], a[4]
                if how == "none":
                    setattr(st, name, None)
                elif how == "restore":
                    st.__dict__.pop(name, None)
                elif how == "falsy":
                    setattr(st, name, Call(lambda *x, **k: self.event(name + "'", n, x, k) if name in EVENTS.values() else self.activated(name + "'", n)))
                elif name in EVENTS.values():
                    setattr(st, name, lambda *x, **k: self.event(name + "'", n, x, k))
                else:
                    setattr(st, name, lambda: self.activated(name + "'", n))
                out.probes["state_hook_edited"] += 1
                self.log.append(("edit", n, name, how))
        elif kind == "new":
            if len(self.managers) < 3:
                self.create(a[2], a[3], a[4])
        elif self.machines:
            mc = self.machines[a[1] % len(self.machines)]
            if kind == "get":
                r = self.attempt(("get", mi), lambda: (mc.mode, mc.smedley.state), 1)
                if r is not None:
                    self.log.append((self.sid(r[0]), self.sid(r[1]), r[0] is mc.manager.state))
            elif kind == "acc":
                s = None if a[2] is None else self.states[a[2]]
                def f():
                    mc.mode = s
                self.attempt(("acc", mi, a[2]), f, a[3], self.allowed(mc.manager, s))
            elif kind == "disp":
                args = (mc, None, 3, "x")[:a[3]]
                kw = [{}, {"a": 1}, {"fn": 2, "state_manager": 3}, {"prefix": 1, "args": 2, "kwargs": 3, "method": 4}][a[4]]
                self.result = None
                shown = args[1:]
                method = None
                if len(a) > 6 and a[2] in self.held:
                    method = self.held[a[2]]
                    out.probes["kept_method_called"] += 1
                r = self.attempt(("disp", mi, a[2]), lambda: (method or getattr(mc, a[2]))(*shown, **kw), a[5])
                self.log.append(("result", r is self.result, r if isinstance(r, tuple) else type(r).__name__))
                if self.depth:
                    out.probes["dispatch_in_callback"] += 1
            elif kind == "hold":
                # the bound method, kept to be called later
                self.held[a[2]] = getattr(self.machines[a[1] % len(self.machines)], a[2])
            elif kind == "swap":
                mc.manager = self.managers[a[2] % len(self.managers)]

    def create(self, s, names, cls):
        s = None if s is None else self.states[s]
        kw = dict(zip(("on_enter", "on_exit"), names))
        kw = {k: v for k, v in kw.items() if v != "default"}
        if cls:
            kw["state_class"] = self.base
        n = len(self.managers)
        allowed = [e for e, c in ((ValueError, s is None), (TypeError, cls and not isinstance(s, self.base))) if c]
        self.attempt(("new", n, repr(names), cls), lambda: self.Manager(s, **kw), 1, allowed)
        if n < len(self.managers) and not allowed:
            self.machines.append(self.make_machine(self.managers[n]))
        elif len(self.managers) > n:
            del self.managers[n:]           # it was refused: nothing to look at

    def run(self):
        c = self.case
        self.create(*c["init"])
        for op in long_history(c["ops"]):
            self.cap += 200
            self.log.append(("op",) + tuple(map(repr, op)))
            try:
                self.act(op)
            except (Violation, HarnessError):
                raise
            except BaseException as e:
                if type(e).__module__ == "sim.runner":
                    raise
                self.log.append(("escaped", self.classify(e)))
            self.log.append(("after",) + self.look())
            for m in self.managers:
                if m.next is not None:
                    self.log.append("still transitioning")


# the machine class, made with the library's decorators and by hand

def real_machine(mod):
    d_on = mod.dispatch("manager", prefix="on_")
    d_now = mod.dispatch(state_manager="manager", prefix="on_", suffix="_now")

    @mod.accessor("mode", "manager")
    class Machine:
        def __init__(self, manager):
            self.manager = manager

        @mod.dispatch("manager")
        def ev(self, *args, **kwargs):
            raise HarnessError("the body of a dispatched method was called")

        @mod.dispatch("manager")
        def ping(self, a=1, *, b=2):
            raise HarnessError("the body of a dispatched method was called")

    class Sub(Machine):
        ping1 = None
    def ev(self): ...
    Sub.ev1 = d_on(ev)
    def ping(self): ...
    Sub.ping1 = d_on(ping)
    def ev(self): ...
    Sub.ev2 = d_now(ev)
    def ping(self): ...
    Sub.ping2 = d_now(ping)

    @mod.accessor()
    class Plain:
        def __init__(self, machine):
            self.machine = machine
        @property
        def state_manager(self):
            return self.machine.manager
    def make(m):
        mc = Sub(m)
        mc.smedley = Plain(mc)
        return mc
    return make


def ref_machine():
    class Plain:
        def __init__(self, machine):
            self.machine = machine
        state = property(lambda self: self.machine.manager.state)

    def disp(name):
        def f(self, *a, **k):
            return getattr(self.manager.state, name)(*a, **k)
        return f

    class Machine:
        def __init__(self, manager):
            self.manager = manager
            self.smedley = Plain(self)
        def _set(self, s):
            self.manager.state = s
        mode = property(lambda self: self.manager.state, _set)
    for attr, name in EVENTS.items():
        setattr(Machine, attr, disp(name))
    return Machine


EVENTS = {"ev": "ev", "ping": "ping", "ev1": "on_ev", "ping1": "on_ping", "ev2": "on_ev_now", "ping2": "on_ping_now"}


def compare(case, out):
    mod = seams.fresh("state")
    real = World(case, out, mod.StateManager, real_machine(mod), mod.TransitionError)
    ref = World(case, runner.Outcome(), RefManager, ref_machine(), RefTransitionError)
    ref.run()
    crash = None
    try:
        real.run()
    except Violation as v:
        crash = v
    out.log = real.log
    if crash:
        raise crash
    for n, (a, b) in enumerate(zip(real.log + [None], ref.log + [None])):
        if a != b:
            ops = [e for e in ref.log[:n + 1] if e and e[0] == "op"]
            raise Violation("protocol", f"event {n}: expected {b}, got {a}; after {len(ops)} operations; before: {ref.log[max(0, n - 4):n]}")
    out.sim_time = len(real.log)


# -- threads (C18) ---------------------------------------------------------------

def run_threads(case, out):
    mod = seams.fresh("state")
    k = K.Kernel(case["sched"], step_cap=40_000, code_prefixes=seams.CODE_PREFIXES)
    intervals = {}           # state -> [start, end or None]: it may have been current in between
    clock = [0]
    calls = {}

    def tick():
        clock[0] += 1
        return clock[0]

    class S:
        def __init__(self, n):
            self.n = n
        def on_enter(self):
            if k.running:
                k.point()
        def on_exit(self):
            if k.running:
                k.point()
        def ev(self, token, *, key):
            calls.setdefault(token, []).append((self, key))
            k.point()
            r = (self, token, key)
            if token % 5 == 4:
                e = Injected(r)
                out.faults["event_raised"] += 1
                raise e
            return r
        def __repr__(self):
            return f"S{self.n}"

    @mod.accessor("state", "sm")
    class Machine:
        def __init__(self, s):
            self.sm = mod.StateManager(s)
        @mod.dispatch("sm")
        def ev(self, token, *, key):
            ...

    n = [0]
    def state():
        n[0] += 1
        return S(n[0])
    first = state()
    intervals[first] = [0, None]
    machine = Machine(first)
    other = Machine(state())

    def transitioner():
        cur = first
        for via in case["transitions"]:
            s = state()
            intervals[s] = [tick(), None]
            out.stats["transition"] += 1
            try:
                if via:
                    machine.state = s
                else:
                    machine.sm.state = s
            except Exception as e:
                raise Violation("unexpected-exception", f"transition to {s}: {e!r}")
            intervals[cur][1] = tick()
            got = machine.state
            if got is not s:
                raise Violation("accessor-wrong", f"machine.state gives {got} after it was set to {s}")
            k.note("set", s.n)
            cur = s

    def check(s, a, b, what):
        if s not in intervals:
            raise Violation("wrong-state", f"{what} reached {s}, a state of another machine")
        lo, hi = intervals[s]
        if b < lo or (hi is not None and a > hi):
            raise Violation("wrong-state", f"{what} reached {s}, which was not current at any moment of the call")
        if lo > a or hi is not None:
            out.probes["raced_with_transition"] += 1

    tok = [0]
    def worker(ops):
        def f():
            kept = machine.ev
            for op in ops:
                a = tick()
                if op == "get":
                    s = machine.state
                    check(s, a, tick(), "machine.state")
                    out.stats["get"] += 1
                    k.note("get", s.n)
                else:
                    tok[0] += 1
                    t = tok[0]
                    key = object()
                    exc = None
                    try:
                        r = (kept if op == "kept" else machine.ev)(t, key=key)
                    except Injected as e:
                        exc = e
                        r = e.args[0]
                    except Exception as e:
                        raise Violation("unexpected-exception", f"dispatch: {e!r}")
                    b = tick()
                    got = calls.get(t, [])
                    out.stats["dispatch"] += 1
                    if len(got) != 1:
                        raise Violation("not-once", f"one dispatched call invoked {len(got)} methods")
                    s = got[0][0]
                    if got[0][1] is not key or not isinstance(r, tuple) or r[0] is not s or r[1] != t or r[2] is not key or (exc is None) == (t % 5 == 4):
                        raise Violation("wrong-result", f"dispatched call {t} reached {s} and gave {r!r} / {exc!r}")
                    check(s, a, b, f"dispatched call {t}")
                    k.note("ev", s.n, t)
        return f

    k.spawn("transitioner", transitioner)
    for i, ops in enumerate(case["workers"]):
        k.spawn(f"worker{i}", worker(ops))
    k.run()
    out.switches = k.switches
    out.log = k.log
    out.steps = k.step
    out.sim_time = clock[0]
    out.signature = runner.sig([(e[1],) + e[3:] for e in k.log])
    if k.violation:
        out.violation = k.violation


class _State(runner.Check):
    lists = (("ops",), ("acts",), ("acts", "*"), ("transitions",), ("workers",), ("workers", "*"))
    real = ("big.state.StateManager, TransitionError, accessor, dispatch",)
    stubs = ("states, hooks, observers and events (scripted)",)
    time_unit = "trace events"
    runs = {"quick": 72000, "thorough": 1500000}
    raising = .0
    disp = .1
    rule = ("one case = 1-3 machines over 16 kinds of states (equal, false, hostile to comparison, without hooks, plain values) and 5 observers; each hook, observer and event call runs the next scripted list of actions; "
            "compared with a reference model event by event; non-trivial = a callback did something; distinct by trace")

    def gen_act(self, rng, depth):
        r = rng.random()
        st = lambda: rng.choice(self.pool) if rng.random() < .92 else rng.choice([None, rng.randrange(NSTATES)])
        if depth and r < self.raising:
            return ["raise", rng.choice(["plain", "plain", "base"] + list(EXCS))]
        r = rng.random()
        m = rng.choice([0, 0, 0, 1, 2])
        if r < self.disp:
            k = rng.choice(["get", "acc", "acc", "disp", "disp", "disp"] + ([] if depth else ["swap"]))
            if k == "get":
                return [k, m]
            if k == "acc":
                return [k, m, st(), int(rng.random() < .7)]
            if k == "swap":
                return [k, m, rng.randrange(3)]
            if rng.random() < .15:
                return ["hold", m, rng.choice(list(EVENTS))]
            return [k, m, rng.choice(list(EVENTS)), rng.randrange(1, 5), rng.randrange(4), int(rng.random() < .7)] + [1] * (rng.random() < .4)
        if r < (.65 if depth else .75):
            return ["set", m, st(), int(rng.random() < .7)]
        if r < (.72 if depth else .8):
            return ["edit", m, rng.choice(self.pool), rng.choice(["on_exit", "on_enter", "on_exit", "on_enter", "enter", "leave"] + list(EVENTS.values())), rng.choice(["none", "restore", "falsy", "new", "new"])]
        if r < .97:
            return ["obs", m, rng.choice(["append", "append", "append", "insert", "remove", "clear", "reverse", "assign", "replace", "pop"]), rng.randrange(5), rng.randrange(4)]
        return self.gen_new(rng, st)

    def gen_new(self, rng, st):
        return ["new", 0, st(), [rng.choice(["default", "default", "default", "on_enter", "enter", "", None]), rng.choice(["default", "default", "default", "on_exit", "leave", "", None])], int(rng.random() < .25)]

    def gen(self, rng, index, tier):
        self.pool = [rng.randrange(NSTATES) if rng.random() < .4 else rng.randrange(8) for _ in range(rng.choice([2, 3, 5]))]
        st = lambda: rng.choice(self.pool)
        init = self.gen_new(rng, st)[2:]
        ops = [self.gen_act(rng, 0) for _ in range(rng.choice([3, 6, 12, 25]))]
        pa = rng.choice([.1, .3, .6])
        acts = [[self.gen_act(rng, 1) for _ in range(rng.choice([1, 1, 2, 3]))] if rng.random() < pa else [] for _ in range(rng.choice([4, 10, 25]))]
        if rng.random() < .008:
            body = [self.gen_act(rng, 0) for _ in range(rng.choice([0, 0, 1, 2]))]
            n = rng.choice([12, 40]) if any(o[0] in ("obs", "new") for o in body) else rng.choice([40, 70, 140, 270, 520, 1100])
            a, b = st(), st()
            ops.insert(rng.randint(0, len(ops)), ["times", n, ["set", 0, a, 1]] + body + [["set", 0, b, 1]])
        return {"init": init, "ops": ops, "acts": acts}

    def run(self, case):
        out = runner.Outcome()
        try:
            if "sched" in case:
                run_threads(case, out)
                out.nontrivial = bool(out.switches)
                return out
            compare(case, out)
        except Violation as v:
            out.violation = (v.kind, v.detail)
        out.switches = []
        out.steps = len(out.log)
        out.signature = runner.sig(out.log)
        out.nontrivial = any(case["acts"]) and len(out.log) > 6
        return out


class C16(_State):
    id = "C16"
    raising = .03
    disp = .04
    required_probes = ("transition_during_transition", "observers_edited_in_callback", "state_hook_edited")


class C17(_State):
    id = "C17"
    raising = .45
    disp = .06
    required_probes = ("exception_in_callback",)


class C18(_State):
    id = "C18"
    raising = .08
    disp = .6
    required_probes = ("dispatch_in_callback", "kept_method_called", "raced_with_transition")
    stubs = _State.stubs + ("thread scheduling (every line or bytecode of the code under test)",)
    rule = _State.rule + "; one case in three instead has one thread transitioning a machine while 1-3 threads use its accessor and events"

    def gen(self, rng, index, tier):
        if index % 3 == 0:
            return {"sched": gen_sched(rng, 120), "transitions": [rng.randrange(2) for _ in range(rng.randint(1, 5))],
                    "workers": [[rng.choice(["get", "ev", "ev", "kept"]) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 3))]}
        return super().gen(rng, index, tier)
