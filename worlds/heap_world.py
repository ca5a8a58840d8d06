"""
C07, C08: heaps used by interleaved clients, with sources that fail part way
or use the heap again while it is consuming them, and comparisons that fail
while the heap is only being read.  Reference model: a sorted list.
"""
import bisect
import copy
import functools

from sim import runner, seams
from sim.kernel import Violation, HarnessError, Injected, injected, ORDINARY


@functools.total_ordering
class Num:
    "A value whose comparisons can be made to fail."
    fuse = None
    kind = "plain"
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    @classmethod
    def burn(cls):
        if cls.fuse is not None:
            cls.fuse -= 1
            if cls.fuse < 0:
                cls.fuse = None
                raise injected(cls.kind, "comparison failed")

    def __lt__(self, o):
        if not isinstance(o, Num):
            return NotImplemented
        self.burn()
        return self.v < o.v

    def __eq__(self, o):
        if not isinstance(o, Num):
            return NotImplemented
        self.burn()
        return self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f"N{self.v}"


class Odd:
    "A value which can't be compared to anything."
    def __init__(self, err):
        self.err = err

    def no(self, o):
        raise injected(self.err, "cannot be compared")

    def __lt__(self, o):
        if self.err is None:
            return NotImplemented
        self.no(o)
    __gt__ = __le__ = __ge__ = __lt__


class Like:
    "A value with its own place in the order, but equal to nothing else."
    __hash__ = None
    def __init__(self, v):
        self.v = v
    def __lt__(self, o):
        return self.v < (o.v if isinstance(o, Like) else o)
    def __gt__(self, o):
        return (o.v if isinstance(o, Like) else o) < self.v
    def __le__(self, o):
        return not self > o
    def __ge__(self, o):
        return not self < o
    def __eq__(self, o):
        return self is o
    def __repr__(self):
        return f"<like {self.v!r}>"


PALETTES = {
    "int": lambda i: i,
    "neg": lambda i: -(i % 7),
    "str": lambda i: "%02d" % i,
    "tuple": lambda i: (i // 3, str(i % 3)),
    "falsy": lambda i: [0, False, 0.0, 1, True, 2.5][i % 6],
    "num": Num,
    "list": lambda i: [i % 5, i],
}


def outcome(fn):
    try:
        return ("ok", fn())
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return ("raise", e)


class It:
    __slots__ = ("id", "h", "real", "left", "dirty", "maybe", "over", "steps")


class H:
    __slots__ = ("id", "real", "m", "its")


class HeapRun:
    def __init__(self, case, out, focus):
        self.case, self.out, self.focus = case, out, focus
        self.mod = seams.fresh("heap")
        self.pal = PALETTES[case["pal"]]
        self.heaps = []
        self.its = []
        self.log = out.log
        self.busy = False
        self.nlooks = 0
        Num.fuse = None

    def bad(self, prop, kind, detail):
        if self.focus == prop:
            raise Violation(kind, detail)

    def note(self, *e):
        self.log.append(e)

    def new(self, real, m):
        h = H()
        h.id, h.real, h.m, h.its = len(self.heaps), real, m, []
        self.heaps.append(h)
        return h

    # a change of the contents of h, for iterators in progress
    def changed(self, h):
        for it in h.its:
            it.dirty = True

    def maybe_changed(self, h):
        for it in h.its:
            it.maybe = True

    # -- comparing a heap with its model -----------------------------------
    def agree(self, h, probe):
        real, m = h.real, h.m
        if self.focus != "C07":
            # C08 only needs the contents (iteration consumes nothing)
            o = outcome(lambda: real.queue)
            if o[0] != "ok" or list(o[1]) != m:
                raise Violation("contents", f"heap {h.id} holds {o[1]!r}, expected {m!r}")
            return
        def want(name, got, expect):
            if got[0] != expect[0] or (got[0] == "ok" and not (got[1] == expect[1])) or (got[0] == "raise" and not isinstance(got[1], type(expect[1]))):
                raise Violation("not-a-sorted-list", f"heap {h.id}: {name} gave {got[1]!r}, a sorted list gives {expect[1]!r}; contents should be {m!r}")
        want("queue", outcome(lambda: real.queue), ("ok", m))
        want("len", outcome(lambda: len(real)), ("ok", len(m)))
        want("bool", outcome(lambda: bool(real)), ("ok", bool(m)))
        want("[0]", outcome(lambda: real[0]), outcome(lambda: m[0]))
        i = probe[0]
        want(f"[{i}]", outcome(lambda: real[i]), outcome(lambda: m[i]))
        s = slice(*probe[1])
        want(f"[{s}]", outcome(lambda: list(real[s])), outcome(lambda: m[s]))
        v = self.pal(probe[2])
        want(f"{v!r} in heap", outcome(lambda: v in real), ("ok", v in m))
        like = Like(v)
        want(f"{like!r} in heap", outcome(lambda: like in real), ("ok", False))
        o = outcome(lambda: repr(real))
        if o[0] != "ok" or not isinstance(o[1], str):
            raise Violation("unexpected-exception", f"repr of heap {h.id} {m!r}: {o[1]!r}")
        # the listing is a copy
        q = real.queue
        q.append(None)
        del q[:1]
        want("queue after editing an earlier listing", outcome(lambda: real.queue), ("ok", m))

    def coherent(self, h, where):
        "Re-entrant reading: the observers must agree with each other."
        real = h.real
        q = list(real.queue)
        n = len(q)
        if len(real) != n or bool(real) != bool(n):
            raise Violation("not-a-sorted-list", f"{where}: queue {q!r} but length {len(real)}")
        for a, b in zip(q, q[1:]):
            if b < a:
                raise Violation("not-a-sorted-list", f"{where}: queue {q!r} is not sorted")
        if n and not (real[0] == q[0]):
            raise Violation("not-a-sorted-list", f"{where}: [0] is {real[0]!r}, queue is {q!r}")
        if n > 1 and not (real[-1] == q[-1]):
            raise Violation("not-a-sorted-list", f"{where}: [-1] is {real[-1]!r}, queue is {q!r}")

    # -- sources -----------------------------------------------------------
    def source(self, vals, kind, fail, reent, h):
        """An iterable over vals; fails before value number `fail`; performs the re-entrant ops [(when, op, arg)]."""
        run = self
        def gen():
            for n, v in enumerate(vals):
                for when, op, arg in reent:
                    if when == n:
                        run.reenter(h, op, arg)
                if fail == n:
                    run.out.faults["source_failed"] += 1
                    raise injected(run.case["exc"], "source")
                yield v
            if fail is not None and fail >= len(vals):
                run.out.faults["source_failed"] += 1
                raise injected(run.case["exc"], "source")
        class Iterable:
            def __iter__(self):
                return gen()
        if fail is None and not reent and kind in ("list", "tuple", "iter"):
            return {"list": list, "tuple": tuple, "iter": iter}[kind](vals)
        class Falsy(Iterable):
            def __bool__(self):
                return False
        class NoBool(Iterable):
            def __bool__(self):
                raise ValueError("the truth value of this object is ambiguous")
        if kind in ("iterable", "falsy", "nobool"):
            return {"iterable": Iterable, "falsy": Falsy, "nobool": NoBool}[kind]()
        return gen()

    def reenter(self, h, op, arg):
        if h is None:
            return
        self.out.faults["reentrant_use"] += 1
        v = self.pal(arg)
        if op == "append":
            h.real.append(v)
            bisect.insort(h.m, v)
            self.changed(h)
        elif op == "pop":
            if self.focus == "C07":
                self.coherent(h, "while extending")
            q = list(h.real.queue)
            o = outcome(h.real.popleft)
            if o[0] == "ok":
                if not q or not (o[1] == q[0]):
                    raise Violation("not-a-sorted-list", f"popleft while extending gave {o[1]!r}, contents were {q!r}")
                if o[1] in h.m:
                    h.m.remove(o[1])
                    self.changed(h)
                else:
                    raise Violation("not-a-sorted-list", f"popleft while extending gave {o[1]!r}, which was never added")
            elif q:
                raise Violation("unexpected-exception", f"popleft while extending raised {o[1]!r}, contents were {q!r}")
        elif op == "read" and self.focus == "C07":
            self.coherent(h, "while extending")
        elif op == "next" and h.its:
            self.step_iter(h.its[arg % len(h.its)])

    # -- iterators -----------------------------------------------------------
    def step_iter(self, it):
        o = outcome(lambda: next(it.real)) if not it.over else None
        if o is None:
            return
        h = it.h
        self.note("next", it.id, o[0], repr(o[1]) if o[0] == "ok" else type(o[1]).__name__)
        self.out.stats["iterator_steps"] += 1
        it.steps += 1
        if o[0] == "raise" and isinstance(o[1], RuntimeError):
            if not it.dirty and not it.maybe:
                self.bad("C08", "false-alarm", f"iteration {it.id} over heap {h.id} raised {o[1]!r} although its contents have not changed")
            if it.dirty:
                self.out.probes["iteration_stopped_by_change"] += 1
            it.dirty = True
            return
        if it.dirty:
            if o[0] == "raise" and isinstance(o[1], StopIteration) and it.steps > 1 and it.left is None:
                return
            self.bad("C08", "stale", f"iteration {it.id} over heap {h.id} gave {o[1]!r} although the contents changed during the iteration")
            it.over = True
            return
        if o[0] == "raise":
            if not isinstance(o[1], StopIteration):
                self.bad("C08", "unexpected-exception", f"iteration {it.id} raised {o[1]!r}")
            elif it.left:
                self.bad("C08", "lost", f"iteration {it.id} over heap {h.id} ended although {it.left!r} were left")
            else:
                self.out.probes["iteration_completed"] += 1
            it.over = True
            return
        if not it.left or not (it.left[0] == o[1]):
            self.bad("C08", "wrong-value", f"iteration {it.id} over heap {h.id} gave {o[1]!r}, {it.left!r} were left")
            it.over = True
            return
        it.left.pop(0)

    # -- operations -----------------------------------------------------------
    def expect(self, name, o, exc, h):
        "The operation must have raised exc and changed nothing."
        if o[0] != "raise" or not isinstance(o[1], exc):
            self.bad("C07", "failure-expected", f"{name} on heap {h.id} gave {o[1]!r}, expected {exc.__name__}")
            return False
        return True

    def step(self, op):
        kind, args = op[0], op[1:]
        out = self.out
        out.stats[kind] += 1
        pal = self.pal
        if kind == "new":
            vals = [pal(i) for i in args[0]]
            src = self.source(vals, args[1], args[2], [], None)
            o = outcome(lambda: self.mod.Heap(src) if args[0] or args[2] is not None else self.mod.Heap())
            self.note("new", len(vals), args[2], o[0])
            if args[2] is not None:
                if o[0] == "ok" or not isinstance(o[1], Injected):
                    self.bad("C07", "failure-hidden", f"Heap(failing source) gave {o[1]!r}")
                return
            if o[0] != "ok":
                raise Violation("unexpected-exception", f"Heap({vals!r}): {o[1]!r}")
            if len(self.heaps) < 5:
                self.agree(self.new(o[1], sorted(vals)), self.case["probe"])
            return
        if kind == "next":
            if self.its:
                self.step_iter(self.its[args[0] % len(self.its)])
            return
        if kind == "drain":
            if self.its:
                it = self.its[args[0] % len(self.its)]
                if args[1] and not (it.over or it.dirty or it.maybe):
                    o = outcome(lambda: [x for x in it.real])
                    if o != ("ok", it.left):
                        self.bad("C08", "wrong-value", f"the rest of iteration {it.id} over heap {it.h.id} is {o[1]!r}, expected {it.left!r}")
                    it.over = True
                for _ in range(200):
                    if it.over or it.dirty:
                        break
                    self.step_iter(it)
            return
        h = self.heaps[args[0] % len(self.heaps)]
        real, m = h.real, h.m
        name = kind
        o = None
        if kind == "append":
            v = pal(args[1])
            o = outcome(lambda: real.append(v))
            self.good(o, f"append({v!r})", h)
            bisect.insort(m, v)
            self.changed(h)
        elif kind == "extend":
            vals = [pal(i) for i in args[1]]
            fail = args[3]
            before = len(m)
            if args[2] == "self":
                o = outcome(lambda: real.extend(real))
                self.good(o, "extend(self)", h)
                h.m = sorted(m + m)
                if before:
                    self.changed(h)
                else:
                    self.maybe_changed(h)
            else:
                src = self.source(vals, args[2], fail, args[4], h)
                o = outcome(lambda: real.extend(src))
                self.note("extend", h.id, len(vals), fail, o[0])
                if fail is not None:
                    if o[0] == "ok" or not isinstance(o[1], Injected):
                        self.bad("C07", "failure-hidden", f"extend on heap {h.id} from a failing source gave {o[1]!r}")
                    out.probes["extend_failed_part_way"] += bool(fail and vals)
                else:
                    self.good(o, f"extend({vals!r})", h)
                    h.m = sorted(h.m + vals)
                    if vals:
                        self.changed(h)
                    else:
                        self.maybe_changed(h)
        elif kind == "pop":
            o = outcome(real.popleft)
            if m:
                v = self.good(o, "popleft", h)
                self.same(v, m.pop(0), "popleft", h)
                self.changed(h)
            else:
                self.expect("popleft", o, IndexError, h)
                out.faults["failed_operation"] += 1
        elif kind == "remove":
            v = m[args[1] % len(m)] if m and args[2] else pal(args[1])
            if args[2] == 3:
                v = Like(v)
                out.probes["stranger_removed"] += 1
            o = outcome(lambda: real.remove(v))
            if v in m:
                self.good(o, f"remove({v!r})", h)
                m.remove(v)
                self.changed(h)
            else:
                self.expect(f"remove({v!r})", o, ValueError, h)
                out.faults["failed_operation"] += 1
        elif kind == "app":
            v = pal(args[1])
            o = outcome(lambda: real.append_and_popleft(v))
            r = self.good(o, f"append_and_popleft({v!r})", h)
            k = sorted(m + [v])
            self.same(r, k[0], f"append_and_popleft({v!r})", h)
            new = k[1:]
            (self.maybe_changed if new == m else self.changed)(h)
            h.m = new
        elif kind == "pap":
            v = pal(args[1])
            o = outcome(lambda: real.popleft_and_append(v))
            if m:
                r = self.good(o, f"popleft_and_append({v!r})", h)
                self.same(r, m[0], f"popleft_and_append({v!r})", h)
                new = sorted(m[1:] + [v])
                (self.maybe_changed if new == m else self.changed)(h)
                h.m = new
            else:
                self.expect("popleft_and_append", o, IndexError, h)
                out.faults["failed_operation"] += 1
        elif kind == "odd":
            # a write must fail, and fail before anything has changed
            what, at, how = args[1], args[2], args[3]
            odd = Odd([None, self.case["exc"]][how])
            if what == "extend":
                vals = [pal(i) for i in args[4]]
                if m or vals:
                    vals.insert(at % (len(vals) + 1), odd)
                    o = outcome(lambda: real.extend(vals))
            elif what == "fuse":
                if self.case["pal"] == "num":
                    vals = [pal(i) for i in args[4]]
                    Num.fuse, Num.kind = at, self.case["exc"]
                    o = outcome(lambda: real.extend(vals))
                    Num.fuse = None
                    if o[0] == "ok":
                        h.m = sorted(m + vals)
                        (self.changed if vals else self.maybe_changed)(h)
                        out.stats["extends_that_compared_little"] += 1
                        o = None
            elif what == "append":
                if m:
                    o = outcome(lambda: real.append(odd))
            elif what == "app":
                if m:
                    o = outcome(lambda: real.append_and_popleft(odd))
            elif what == "pap":
                if len(m) > 1:
                    o = outcome(lambda: real.popleft_and_append(odd))
            if o is not None:
                if o[0] == "ok":
                    self.bad("C07", "failure-hidden", f"{what} of a value that cannot be compared on heap {h.id} {m!r} gave {o[1]!r}")
                elif not isinstance(o[1], (TypeError, Injected)):
                    self.bad("C07", "unexpected-exception", f"{what} of a value that cannot be compared on heap {h.id} {m!r} raised {o[1]!r}")
                self.maybe_changed(h)
                out.faults["write_comparison_failed"] += 1
                if self.focus == "C07":
                    out.probes["incomparable_value"] += 1
                    self.agree(h, self.probe())
        elif kind == "clear":
            o = outcome(real.clear)
            self.good(o, "clear", h)
            (self.changed if m else self.maybe_changed)(h)
            h.m = []
        elif kind == "copy":
            how = args[1] if len(args) > 1 else 0
            o = outcome([real.copy, lambda: copy.copy(real), lambda: copy.deepcopy(real)][how])
            c = self.good(o, "copy", h)
            if len(self.heaps) < 5:
                c = self.new(c, list(m))
                self.agree(c, self.case["probe"])
                out.probes["copied"] += 1
            else:
                self.heaps[-1].real = c
                self.heaps[-1].m = list(m)
                self.heaps[-1].its = []
                h = self.heaps[-1]
        elif kind == "eq":
            g = self.heaps[args[1] % len(self.heaps)]
            o = outcome(lambda: (real == g.real, real != g.real))
            want = (m == g.m, m != g.m)
            if o != ("ok", want):
                self.bad("C07", "equality", f"heap {h.id} {m!r} and heap {g.id} {g.m!r}: (==, !=) gave {o[1]!r}")
        elif kind == "index":
            i = args[1]
            i = tuple(i) if isinstance(i, list) else i
            o = outcome(lambda: real[i])
            w = outcome(lambda: m[i])
            if o[0] != w[0] or (o[0] == "ok" and not (o[1] == w[1])) or (o[0] == "raise" and not isinstance(o[1], type(w[1]))):
                self.bad("C07", "not-a-sorted-list", f"heap {h.id}[{i!r}] gave {o[1]!r}, a sorted list gives {w[1]!r}: {m!r}")
            if o[0] == "raise":
                out.faults["failed_operation"] += 1
        elif kind == "slice":
            s = slice(*args[1])
            o = outcome(lambda: list(real[s]))
            w = outcome(lambda: m[s])
            if o[0] != w[0] or (o[0] == "ok" and not (o[1] == w[1])) or (o[0] == "raise" and not isinstance(o[1], type(w[1]))):
                self.bad("C07", "not-a-sorted-list", f"heap {h.id}[{s}] gave {o[1]!r}, a sorted list gives {w[1]!r}: {m!r}")
        elif kind == "in":
            v = pal(args[1])
            o = outcome(lambda: v in real)
            if o != ("ok", v in m):
                self.bad("C07", "not-a-sorted-list", f"{v!r} in heap {h.id} gave {o[1]!r}: {m!r}")
        elif kind == "readfail":
            # a comparison fails while the heap is only being read
            if self.case["pal"] != "num":
                return
            what, at = args[1], args[2]
            v = pal(args[3])
            f = {"queue": lambda: real.queue, "index": lambda: real[args[3] % 15 - 3], "in": lambda: v in real,
                 "slice": lambda: real[1:4], "eq": lambda: real == self.heaps[args[3] % len(self.heaps)].real, "last": lambda: real[-1], "iter": lambda: [*real]}[what]
            # (not an IndexError: the heap may well take that for the end of its own list)
            Num.fuse, Num.kind = at, "plain" if self.case["exc"] == "index" else self.case["exc"]
            try:
                o = outcome(f)
            finally:
                fired = Num.fuse is None
                Num.fuse = None
            if fired:
                out.faults["comparison_failed"] += 1
                if o[0] == "ok" or not isinstance(o[1], Injected):
                    self.bad("C07", "failure-hidden", f"{what} on heap {h.id} gave {o[1]!r} although a comparison failed")
        elif kind == "iter":
            o = outcome(lambda: iter(real))
            r = self.good(o, "iter", h)
            if len(self.its) < 6:
                it = It()
                it.id, it.h, it.real, it.left, it.dirty, it.maybe, it.over, it.steps = len(self.its), h, r, list(m), False, False, False, 0
                self.its.append(it)
                h.its.append(it)
            else:
                it = self.its[args[1] % len(self.its)]
                if it in it.h.its:
                    it.h.its.remove(it)
                it.h, it.real, it.left, it.dirty, it.maybe, it.over, it.steps = h, r, list(m), False, False, False, 0
                h.its.append(it)
            out.probes["two_iterations_of_one_heap"] += sum(not i.over and not i.dirty for i in h.its) > 1
        elif kind == "busy":
            # very many changes between two steps of an iteration
            mode, n, v = args[1], args[2], pal(args[3])
            if mode in ("pop", "remove"):
                vs = [v] * n
                self.good(outcome(lambda: real.extend(vs)), f"extend by {n}", h)
                for x in vs:
                    bisect.insort(m, x)
            else:
                self.good(outcome(lambda: real.extend([v, v])), "extend", h)
                for x in (v, v):
                    bisect.insort(m, x)
            self.changed(h)
            self.step(["iter", args[0], 0])
            it = h.its[-1]
            self.step_iter(it)
            fn = {"pop": real.popleft, "remove": lambda: real.remove(v), "append": lambda: real.append(v), "app": lambda: real.append_and_popleft(v),
                  "pap": lambda: real.popleft_and_append(v), "extend": lambda: real.extend([v])}[mode]
            for k in range(n):
                o = outcome(fn)
                if o[0] != "ok":
                    raise Violation("unexpected-exception", f"change {k} of {n} ({mode}) of heap {h.id} raised {o[1]!r}")
            out.probes["busy_heap"] += 1
            if mode in ("pop", "remove", "append", "extend"):
                # (a value appended and popped at once may be no change at all)
                self.changed(h)
            else:
                self.maybe_changed(h)
            if not it.maybe:
                self.step_iter(it)
            self.good(outcome(lambda: real.clear()), "clear", h)
            m.clear()
            self.changed(h)
        elif kind == "loop":
            # a for loop whose body uses the heap at one step
            if self.focus != "C08":
                return
            at, body, arg = args[1], args[2], args[3]
            got, want = [], list(m)
            v = pal(arg)
            changed = False
            def f():
                nonlocal changed
                for n, x in enumerate(real):
                    got.append(x)
                    if n == at:
                        if body == "append":
                            real.append(v); bisect.insort(h.m, v); changed = True
                        elif body == "pop" and h.m:
                            real.popleft(); h.m.pop(0); changed = True
                        elif body == "nested":
                            inner = [y for y in real]
                            if inner != want:
                                raise Violation("wrong-value", f"nested iteration over heap {h.id} gave {inner!r}, expected {want!r}")
                        elif body == "break":
                            break
            o = outcome(f)
            self.note("loop", h.id, at, body, o[0], len(got))
            if got != want[:len(got)]:
                raise Violation("wrong-value", f"iterating heap {h.id} gave {got!r}, contents were {want!r}")
            if changed:
                self.changed(h)
                if o[0] == "ok" or not isinstance(o[1], RuntimeError) or len(got) != at + 1:
                    raise Violation("stale", f"the loop over heap {h.id} changed it at step {at} and went on: got {got!r}, {o!r}")
            elif o[0] != "ok" or (len(got) != len(want) and not (body == "break" and len(got) == at + 1)):
                raise Violation("false-alarm", f"iterating unchanged heap {h.id} gave {o!r} after {got!r}, contents {want!r}")
        else:
            raise HarnessError(kind)
        self.note(kind, h.id, o[0] if o else None, len(h.m))
        # (looking at a heap must not be what keeps it in order)
        self.nlooks += 1
        if self.nlooks % self.case["every"]:
            return
        self.agree(h, self.probe())
        if len(self.heaps) > 1:
            other = self.heaps[(h.id + 1) % len(self.heaps)]
            self.agree(other, self.probe())

    def probe(self):
        p = self.case["probes"]
        self.np = getattr(self, "np", -1) + 1
        return p[self.np % len(p)]

    def good(self, o, name, h):
        if o[0] != "ok":
            raise Violation("unexpected-exception", f"{name} on heap {h.id} {h.m!r}: {type(o[1]).__name__}: {o[1]}")
        return o[1]

    def same(self, got, want, name, h):
        if not (got == want):
            raise Violation("not-a-sorted-list", f"{name} on heap {h.id} gave {got!r}, a sorted list gives {want!r}")

    def run(self):
        case = self.case
        o = outcome(lambda: self.mod.Heap([self.pal(i) for i in case["init"]]))
        if o[0] != "ok":
            raise Violation("unexpected-exception", f"Heap(): {o[1]!r}")
        h = self.new(o[1], sorted(self.pal(i) for i in case["init"]))
        self.agree(h, case["probe"])
        for op in case["ops"]:
            self.step(op)
        # everything comes out again, in order
        for h in self.heaps:
            if self.focus == "C07":
                got = []
                while h.real:
                    got.append(h.real.popleft())
                    if len(got) > len(h.m) + 5:
                        break
                if got != h.m:
                    raise Violation("not-a-sorted-list", f"popping heap {h.id} until empty gave {got!r}, expected {h.m!r}")


def gen_probe(rng):
    r = lambda: rng.choice([None, None, 0, 1, 2, 3, 9, 10, 11, -1, -2, -3, -9, -10, -11, 40, -40])
    return [rng.choice([0, 1, 2, 5, 8, 9, 10, 11, 12, -1, -2, -3, -8, -9, -10, -11, -12, 30, -30, True]), [r(), r(), rng.choice([None, None, None, 1, 1, 2, -1, -2])], rng.randrange(20)]


class _Heap(runner.Check):
    lists = (("ops",), ("init",), ("probes",))
    real = ("big.heap.Heap and its iterators",)
    stubs = ("the clients, the sources values are read from, the values' comparisons",)
    time_unit = "operations"
    assumptions = ("clients are interleaved between operations and inside sources, not inside an operation: Heap does not claim to be thread safe",)
    base = {}
    rule = ("one case = a random history (5-70 operations) of interleaved clients on up to 5 heaps and 6 iterations in progress, with sources that fail part way or use the heap again, "
            "operations that must fail, failing comparisons while reading; non-trivial = at least one fault and three kinds of operation; distinct by event log")
    runs = {"quick": 72000, "thorough": 1500000}

    def gen(self, rng, index, tier):
        kinds = [k for k in self.base if rng.random() < .8 or self.base[k] >= 8]
        ws = [self.base[k] * rng.choice([.4, 1, 1, 2.5]) for k in kinds]
        span = rng.choice([3, 6, 20, 20])
        ops = []
        val = lambda: rng.randrange(span)
        def vals():
            return [val() for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 14]))]
        nh = rng.choice([1, 1, 2, 4])
        for _ in range(rng.choice([5, 10, 20, 40, 70])):
            k = rng.choices(kinds, ws)[0]
            h = rng.randrange(nh)
            if k in ("append", "app", "pap", "in"):
                ops.append([k, h, val()])
            elif k == "extend":
                vs = vals()
                src = rng.choice(["list", "tuple", "iter", "gen", "gen", "iterable", "falsy", "nobool", "self"])
                fail = rng.randrange(len(vs) + 1) if rng.random() < .4 and src != "self" else None
                re = []
                if rng.random() < .35:
                    re = [[rng.randrange(len(vs) + 1), rng.choice(["append", "pop", "read", "read", "next"]), val()] for _ in range(rng.randint(1, 2))]
                ops.append([k, h, vs, src, fail, re])
            elif k == "new":
                vs = vals()
                ops.append([k, vs, rng.choice(["list", "tuple", "iter", "gen", "iterable", "falsy", "nobool"]), rng.randrange(len(vs) + 1) if rng.random() < .3 else None])
            elif k == "remove":
                ops.append([k, h, val(), rng.choice([0, 0, 0, 1, 1, 1, 2, 2, 2, 3])])
            elif k == "odd":
                ops.append([k, h, rng.choice(["append", "extend", "extend", "fuse", "app", "pap"]), rng.randrange(rng.choice([3, 12, 30])), rng.randrange(2), vals()])
            elif k == "copy":
                ops.append([k, h, rng.choice([0, 0, 1, 2])])
            elif k in ("pop", "clear"):
                ops.append([k, h])
            elif k == "eq":
                ops.append([k, h, rng.randrange(5)])
            elif k == "index":
                ops.append([k, h, rng.choice([gen_probe(rng)[0], gen_probe(rng)[0], gen_probe(rng)[0], "a", None, 1.0, [0, 1]])])
            elif k == "slice":
                s = gen_probe(rng)[1]
                if rng.random() < .05:
                    s[2] = 0
                ops.append([k, h, s])
            elif k == "readfail":
                ops.append([k, h, rng.choice(["queue", "index", "in", "slice", "eq", "last", "iter"]), rng.randrange(rng.choice([3, 12, 40])), val()])
            elif k == "iter":
                ops.append([k, h, rng.randrange(6)])
            elif k in ("next", "drain"):
                ops.append([k, rng.randrange(6), rng.randrange(2)])
            elif k == "loop":
                ops.append([k, h, rng.randrange(6), rng.choice(["append", "pop", "nested", "break", "none"]), val()])
        if rng.random() < .004 and "iter" in self.base:
            big = rng.random() < .05
            ops.append(["busy", rng.randrange(nh), rng.choice(["pop", "pop", "remove", "append", "append", "extend", "app", "pap"]) if not big else rng.choice(["pop", "append"]),
                        65536 if big else rng.choice([3, 8, 16, 64, 100, 128, 255, 256, 256, 256, 257, 512, 1000, 1024]), val()])
        return {"exc": rng.choice(ORDINARY), "pal": rng.choice(["int", "int", "neg", "str", "tuple", "falsy", "num", "num", "list"]), "init": vals(), "ops": ops, "probe": gen_probe(rng),
                "every": rng.choice([1, 1, 1, 2, 5, 100]), "probes": [gen_probe(rng) for _ in range(17)]}

    def run(self, case):
        out = runner.Outcome()
        run = HeapRun(case, out, self.id)
        try:
            run.run()
        except Violation as v:
            out.violation = (v.kind, v.detail)
        finally:
            Num.fuse = None
        out.switches = []
        out.sim_time = len(case["ops"])
        out.steps = len(out.log)
        out.signature = runner.sig(out.log)
        out.nontrivial = len(out.stats) >= 3 and bool(out.faults)
        return out


class C07(_Heap):
    id = "C07"
    base = {"append": 10, "extend": 10, "pop": 6, "remove": 6, "app": 4, "pap": 4, "clear": .7, "copy": 3, "eq": 3, "index": 5, "slice": 5, "in": 1, "new": 2, "readfail": 4, "odd": 3}
    required_probes = ("extend_failed_part_way", "copied", "incomparable_value", "stranger_removed")


class C08(_Heap):
    id = "C08"
    base = {"append": 5, "extend": 6, "pop": 3, "remove": 4, "app": 2, "pap": 2, "clear": .7, "copy": 1, "iter": 9, "next": 40, "drain": 4, "loop": 6, "readfail": 1, "in": 1, "index": 1}
    required_probes = ("busy_heap", "iteration_stopped_by_change", "iteration_completed", "two_iterations_of_one_heap")
