"""
The simulator kernel.

One Kernel runs one simulated execution.  Every simulated task is a real
thread, but at most one of them is ever released: a task runs until it reaches
a *point* (a line or bytecode of the code under test, a lock operation, a
sleep, an explicit yield), where the kernel may park it and release another.
Which task runs next is decided only by this object, from one seeded PRNG (or
from a recorded list of switches), so one case is one exactly repeatable
execution.

Time is virtual.  It moves only when no task can run (it then jumps to the
earliest deadline) or when a task explicitly advances it.

Decisions are recorded sparsely: the default decision is "stay on the current
task; if it cannot run, the next runnable task in cyclic id order", and only
deviations are written down as [step, task id].  Replaying that list gives the
same execution.
"""

import _thread
import math
import random
import sys

_allocate = _thread.allocate_lock


class HarnessError(Exception):
    "The simulator or a world is wrong (never a verdict about the code under test)."


class Violation(Exception):
    "Raised by worlds: the property does not hold on this execution."
    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class Injected(Exception):
    "An injected fault (ordinary exception)."


class InjectedOS(OSError):
    "An injected operating system fault."


class InjectedBase(BaseException):
    "An injected interrupt (like KeyboardInterrupt)."


KINDS = {"plain": None, "os": OSError, "interrupted": InterruptedError, "timeout": TimeoutError, "blocking": BlockingIOError, "value": ValueError, "index": IndexError,
         "key": KeyError, "lookup": LookupError, "type": TypeError, "attr": AttributeError, "runtime": RuntimeError, "assertion": AssertionError, "memory": MemoryError,
         "arithmetic": ArithmeticError, "overflow": OverflowError, "notimpl": NotImplementedError, "eof": EOFError, "buffer": BufferError, "recursion": RecursionError,
         "name": NameError, "import": ImportError, "reference": ReferenceError, "warning": UserWarning, "stop": StopIteration, "stopasync": StopAsyncIteration,
         "base": 0, "keyboard": KeyboardInterrupt, "exit": SystemExit, "genexit": GeneratorExit}
BASES = ("base", "keyboard", "exit", "genexit")
ORDINARY = [k for k in KINDS if k not in BASES and k not in ("stop", "stopasync")]
_classes = {}


def injected(kind, text, mark=Injected):
    """
    A fault of the given kind: an instance both of `mark` (so that the world
    knows it) and of the exception a real failure would raise (so that code
    which catches too much catches it).
    """
    c = _classes.get((kind, mark))
    if c is None:
        b = KINDS[kind]
        if kind in BASES:
            c = type(f"Injected_{kind}", (InjectedBase, b), {}) if b else InjectedBase
        else:
            c = type(f"{mark.__name__}_{kind}", (mark, b), {}) if b else mark
        _classes[kind, mark] = c
    return c(text)


READY, BLOCKED, DONE = "ready", "blocked", "done"


class Task:
    __slots__ = ("id", "name", "fn", "baton", "state", "deadline", "woken", "error", "prio", "where")

    def __init__(self, id, name, fn):
        self.id = id
        self.name = name
        self.fn = fn
        self.baton = _allocate()
        self.baton.acquire()
        self.state = READY
        self.deadline = None
        self.woken = None
        self.error = None
        self.prio = 0
        self.where = None


def _prime_opcode_tracing():
    # CPython 3.12 delivers opcode events only to sys.settrace() calls made
    # after some frame has asked for them once in the interpreter's life.
    # Ask now, so that the first execution of a process equals all later ones.
    sys._getframe().f_trace_opcodes = True
    old = sys.gettrace()
    sys.settrace(lambda *a: None)
    sys.settrace(old)


_prime_opcode_tracing()

_current = None            # the Kernel of the execution in progress, if any


def current():
    return _current


class Kernel:
    def __init__(self, sched, *, now=0.0, step_cap=200_000, code_prefixes=(), trace=None):
        """
        sched: {"mode": "rr"} or {"mode": "rw", "seed": s, "p": p, "opcodes": bool}
               or {"mode": "pct", "seed": s, "d": n, "k": n, "opcodes": bool}
               or {"mode": "replay", "switches": [[step, tid], ...], "opcodes": bool}
        """
        self.sched = sched
        self.now = now
        self.start_time = now
        self.step = 0
        self.step_cap = step_cap
        self.tasks = []
        self.cur = None
        self.violation = None
        self.harness_error = None
        self.finished = _allocate()
        self.finished.acquire()
        self.log = []
        self.switches = []            # recorded deviations
        self.preemptions = 0
        self.on_idle = None           # called with the time about to be jumped to
        self.running = False
        self.opcodes = bool(sched.get("opcodes"))
        self.code_prefixes = tuple(code_prefixes)
        self._trace_files = {}
        self.trace = (sched["mode"] != "coop") if trace is None else trace
        mode = sched["mode"]
        self.rng = random.Random(sched.get("seed", 0))
        self.mode = mode
        if mode in ("rw", "coop"):
            self.p = sched["p"]
            self._arm()
        elif mode == "pct":
            self.k = sched.get("k", 400)
            self.changes = sorted(self.rng.randrange(1, self.k + 1) for _ in range(sched.get("d", 3)))
            self.next_event = 0
        elif mode == "replay":
            self.plan = {int(s): int(t) for s, t in sched["switches"]}
            self.plan_steps = sorted(self.plan, reverse=True)
            self.next_event = 0
        elif mode == "rr":
            self.next_event = step_cap
        else:
            raise HarnessError(f"unknown schedule mode {mode!r}")

    # -- the schedule ---------------------------------------------------

    def _arm(self):
        if self.p <= 0:
            self.next_event = 1 << 60
        elif self.p >= 1:
            self.next_event = self.step + 1
        else:
            # geometric gap
            gap = 1
            u = self.rng.random()
            gap = 1 + int(math.log(1.0 - u) / math.log(1.0 - self.p))
            self.next_event = self.step + gap

    def spawn(self, name, fn):
        t = Task(len(self.tasks), name, fn)
        self.tasks.append(t)
        if self.mode == "pct":
            t.prio = self.rng.random() + 1.0
        _thread.start_new_thread(self._thread_main, (t,))
        return t

    def _thread_main(self, t):
        t.baton.acquire()
        if self.trace:
            sys.settrace(self._tracer)
        try:
            t.fn()
        except Violation as v:
            sys.settrace(None)
            self.fail(v.kind, v.detail)
        except BaseException as e:
            sys.settrace(None)
            t.error = e
            import traceback
            self.harness_error = f"task {t.name}: " + "".join(traceback.format_exception(e))
            self._stop_all()
        finally:
            sys.settrace(None)
        t.state = DONE
        if not self._stopped():
            self._switch_away(t, park=False)

    # -- tracing: preemption points inside the code under test --------------

    def _tracer(self, frame, event, arg):
        code = frame.f_code
        fn = code.co_filename
        want = self._trace_files.get(fn)
        if want is None:
            want = fn.startswith(self.code_prefixes)
            self._trace_files[fn] = want
        if not want or code.co_name == "<module>":
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.step += 1
            if self.step >= self.next_event:
                self._decide()
        return self._local

    # -- points ---------------------------------------------------------

    def point(self):
        "A voluntary preemption point."
        self.step += 1
        if self.step >= self.next_event or self.step >= self.step_cap:
            self._decide()

    def _runnable(self):
        return [t for t in self.tasks if t.state is READY]

    def _decide(self):
        cur = self.cur
        if self.step >= self.step_cap:
            self.fail("no-progress", f"step cap {self.step_cap} reached (task {cur.name})")
            self._park_forever()
        mode = self.mode
        target = None
        if mode in ("rw", "coop"):
            others = [t for t in self.tasks if t.state is READY and t is not cur]
            self._arm()
            if others:
                target = others[self.rng.randrange(len(others))]
        elif mode == "pct":
            while self.changes and self.step >= self.changes[0]:
                self.changes.pop(0)
                cur.prio = self.rng.random() * 0.5
            self.next_event = self.changes[0] if self.changes else self.step_cap
            best = max(self._runnable(), key=lambda t: t.prio)
            target = best
        elif mode == "replay":
            self._replay_next()
            tid = self.plan.get(self.step)
            if tid is not None and tid < len(self.tasks):
                t = self.tasks[tid]
                if t.state is READY:
                    target = t
        if self.next_event > self.step_cap:
            self.next_event = self.step_cap
        if target is not None and target is not cur:
            self.preemptions += 1
            self.switches.append([self.step, target.id])
            self._transfer(cur, target)

    def _replay_next(self):
        q = self.plan_steps
        while q and q[-1] <= self.step:
            q.pop()
        self.next_event = q[-1] if q else self.step_cap

    def _default_next(self, cur):
        n = len(self.tasks)
        base = cur.id if cur is not None else -1
        for i in range(1, n + 1):
            t = self.tasks[(base + i) % n]
            if t.state is READY:
                return t
        return None

    def _choose_forced(self, cur):
        "The current task cannot go on: who is next?  None if nobody can run."
        default = self._default_next(cur)
        if default is None:
            return None
        target = default
        self.step += 1
        if self.mode in ("rw", "coop"):
            r = self._runnable()
            target = r[self.rng.randrange(len(r))]
        elif self.mode == "pct":
            target = max(self._runnable(), key=lambda t: t.prio)
        elif self.mode == "replay":
            tid = self.plan.get(self.step)
            if tid is not None and tid < len(self.tasks) and self.tasks[tid].state is READY:
                target = self.tasks[tid]
            self._replay_next()
        if target is not default:
            self.switches.append([self.step, target.id])
        return target

    # -- moving the baton ---------------------------------------------------

    def _transfer(self, cur, target):
        self.cur = target
        target.baton.release()
        cur.baton.acquire()

    def _switch_away(self, cur, park=True):
        while True:
            target = self._choose_forced(cur)
            if target is not None:
                break
            # nobody can run: let time pass
            waiting = [t for t in self.tasks if t.state is BLOCKED and t.deadline is not None]
            if not waiting:
                if all(t.state is DONE for t in self.tasks):
                    self._finish()
                    return
                stuck = ", ".join(f"{t.name} in {t.where}" for t in self.tasks if t.state is BLOCKED)
                self.fail("deadlock", f"nothing can run and no timer is pending; blocked: {stuck}")
                if park:
                    self._park_forever()
                return
            when = min(t.deadline for t in waiting)
            if self.on_idle is not None:
                try:
                    self.on_idle(when)
                except Violation as v:
                    self.fail(v.kind, v.detail)
                    if park:
                        self._park_forever()
                    return
            if when > self.now:
                self.now = when
            for t in waiting:
                if t.deadline <= self.now:
                    t.state = READY
                    t.woken = "timeout"
                    t.deadline = None
        if target is cur:
            self.cur = cur
            return
        self.cur = target
        target.baton.release()
        if park:
            cur.baton.acquire()

    def _finish(self):
        self.running = False
        self.finished.release()

    def _stopped(self):
        return self.violation is not None or self.harness_error is not None

    def _stop_all(self):
        if self.running:
            self._finish()

    def fail(self, kind, detail=""):
        "Record a violation and end the execution.  Parked tasks stay parked."
        if self.violation is None:
            self.violation = (kind, detail)
            self.running and self._finish()

    def _park_forever(self):
        l = _allocate()
        l.acquire()
        sys.settrace(None)
        l.acquire()

    # -- services used by the seams -------------------------------------------

    def block(self, deadline=None, where=""):
        "Park the current task until unblock() or the deadline; returns 'woken' or 'timeout'."
        t = self.cur
        if deadline is not None and deadline <= self.now:
            self.point()
            return "timeout"
        t.state = BLOCKED
        t.deadline = deadline
        t.woken = None
        t.where = where
        self._switch_away(t)
        t.where = None
        return t.woken

    def unblock(self, t):
        if t.state is BLOCKED:
            t.state = READY
            t.woken = "woken"
            t.deadline = None

    def sleep(self, d):
        if d <= 0:
            self.point()
            return
        self.block(self.now + d, where="sleep")

    def advance(self, d):
        "The clock moves on although tasks can run (a slow machine, a jump)."
        self.now += d
        for t in self.tasks:
            if t.state is BLOCKED and t.deadline is not None and t.deadline <= self.now:
                t.state = READY
                t.woken = "timeout"
                t.deadline = None
        self.point()

    def note(self, *event):
        self.log.append((self.step, self.cur.name if self.cur else "-", self.now) + event)

    def violate(self, kind, detail=""):
        raise Violation(kind, detail)

    # -- running ------------------------------------------------------------

    def run(self):
        global _current
        if _current is not None:
            raise HarnessError("nested simulation")
        if not self.tasks:
            return
        _current = self
        self.running = True
        try:
            first = self._choose_forced(None)
            self.cur = first
            first.baton.release()
            self.finished.acquire()
        finally:
            _current = None
        if self.harness_error:
            raise HarnessError(self.harness_error)


def in_task():
    k = _current
    return k is not None and k.running and k.cur is not None
