"""
C15: pushback iterators over live sources that fail, fail and recover, die,
share their source with other readers, or push values themselves.
Reference model: a stack on top of a list of what the source will supply.
"""
from sim import runner, seams
from sim.kernel import Violation, HarnessError, Injected, InjectedOS, InjectedBase

EXCS = {"plain": Injected, "os": InjectedOS, "base": InjectedBase, "runtime": RuntimeError, "value": ValueError, "index": IndexError, "type": TypeError,
        "attr": AttributeError, "key": KeyError, "eof": EOFError, "kbd": KeyboardInterrupt, "genexit": GeneratorExit, "async": StopAsyncIteration}

VALUES = [0, 1, None, "", "a", False, (), 2, "b", [], "END", 3, StopIteration, "c", StopIteration("as a value"), 4.5]


def outcome(fn):
    try:
        return ("ok", fn())
    except (Violation, HarnessError):
        raise
    except BaseException as e:
        if type(e).__module__ == "sim.runner" and type(e).__name__ in ("_Hang", "_StepCap"):
            raise
        return ("raise", e)


class Source:
    """What the outside world supplies: [["v", i], ["f", exc], ["push", i, j]...]; one item per successful reading."""
    def __init__(self, script, kind, out):
        self.script = list(script)
        self.kind = kind
        self.out = out
        self.reads = 0
        self.dead = False
        self.reader = None
        self.failure = None          # the last one

    def read(self):
        self.reads += 1
        if self.dead or not self.script:
            self.out.stats["source_exhausted"] += 1
            raise StopIteration
        item = self.script.pop(0)
        if item[0] == "end":
            # ended, although there may be more later (a file somebody writes to)
            self.out.stats["source_ended_for_now"] += 1
            if self.kind == "gen":
                self.dead = True
            raise StopIteration
        if item[0] in ("push", "pushf"):
            # the source hands something to the iterator that reads it
            self.out.probes["source_pushed_while_read"] += 1
            self.reader.real.push(VALUES[item[2]])
        if item[0] in ("f", "pushf"):
            e = EXCS[item[1]]("injected source failure")
            self.failure = e
            self.out.faults["source_failure_" + item[1]] += 1
            if self.kind == "gen":
                self.dead = True
            raise e
        return VALUES[item[1]]


class Iter:
    def __init__(self, s):
        self.s = s
    def __iter__(self):
        return self
    def __next__(self):
        return self.s.read()


class Falsy(Iter):
    "An iterator that is false and has length 0 (as an iterator over a drained queue may be)."
    def __len__(self):
        return 0


class EqualsNone(Iter):
    "An iterator that compares equal to everything."
    def __eq__(self, o):
        return True
    __hash__ = None


class NextOnly:
    "Only __next__."
    def __init__(self, s):
        self.s = s
    def __next__(self):
        return self.s.read()


class Iterable:
    def __init__(self, s, eq=False):
        self.s = s
    def __iter__(self):
        return Iter(self.s)


class IterableEq(Iterable):
    def __eq__(self, o):
        return True
    __hash__ = None


def generator(s):
    while True:
        try:
            v = s.read()
        except StopIteration:
            return
        yield v


class P:
    __slots__ = ("id", "real", "stack", "src", "over", "depth")


class World:
    def __init__(self, case, out):
        self.case, self.out, self.log = case, out, out.log
        self.mod = seams.fresh("itertools")
        self.sources = []
        self.ps = []
        self.handed = None               # (iterator, value) a source will push while it is read

    def settle(self):
        """The operation is over: what the source pushed meanwhile is on the stack."""
        h, self.handed = self.handed, None
        if h:
            h[0].stack.append(h[1])
        return h

    def bad(self, kind, detail):
        raise Violation(kind, detail)

    def make(self, spec):
        kind, script = spec
        script = [x for i in script for x in ([["v", (i[2] + k) % len(VALUES)] for k in range(i[1])] if i[0] == "many" else [i])]
        s = Source(script, kind, self.out)
        self.sources.append(s)
        obj = {"iter": Iter, "falsy": Falsy, "equal": EqualsNone, "next": NextOnly, "iterable": Iterable, "iterable_eq": IterableEq, "gen": generator,
               "calls": lambda s: iter(s.read, object()) if all(i[0] == "v" for i in script) else Iter(s),
               "map": lambda s: map(lambda x: x, Iter(s))}[kind](s)
        return s, obj

    def expect_next(self, p):
        """The outcome the model demands of a step: ('ok', v, reads) | ('stop',) | ('fail', source)"""
        if p.stack:
            return ("ok", p.stack.pop(), 0)
        s = p.src
        if isinstance(s, P):                 # nested pushback iterators
            w = ("stop", None, 2) if p.over else self.expect_next(s)
            p.over = w[0] == "stop"
            return w
        if s is None or s.dead or not s.script or p.over:
            again = p.over
            if s is not None:
                p.over = True
            self.out.probes["asked_after_the_end"] += bool(again and s is not None and s.script and not s.dead)
            # (asking a source that stays ended again is nothing anyone could notice)
            return ("stop", None, 0 if again and s is not None and s.script and not s.dead else 2)
        it = s.script[0]
        if it[0] == "end":
            p.over = True
            return ("stop", None, 1)
        s.reader = p
        if it[0] in ("push", "pushf"):
            self.handed = (p, VALUES[it[2]])
        if it[0] in ("f", "pushf"):
            return ("fail", it[1], 1)
        return ("ok", VALUES[it[1]], 1)

    def run(self):
        case, out = self.case, self.out
        for spec in case["sources"]:
            s, obj = self.make(spec)
            o = outcome(lambda: self.mod.PushbackIterator(obj))
            if o[0] != "ok":
                self.bad("unexpected-exception", f"PushbackIterator({spec[0]} source): {o[1]!r}")
            self.add(o[1], s)
            # other readers of the same source
            if spec[0] in ("iter", "gen", "next", "map") and case["shared"]:
                o = outcome(lambda: self.mod.PushbackIterator(obj))
                self.add(o[1], s)
        if case["empty"]:
            o = outcome(lambda: self.mod.PushbackIterator(None) if case["empty"] == 1 else self.mod.PushbackIterator())
            self.add(o[1], None)
        if case["nested"]:
            inner = self.ps[0]
            o = outcome(lambda: self.mod.PushbackIterator(inner.real))
            if o[0] != "ok":
                self.bad("unexpected-exception", f"PushbackIterator(PushbackIterator): {o[1]!r}")
            self.add(o[1], inner)
        self.check_reads([0] * len(self.sources), "creation")
        for op in case["ops"]:
            self.step(op)
        # everything left comes out, once sources stop failing
        for s in self.sources:
            s.script = [i for i in s.script if i[0] not in ("f", "pushf")]
        for p in self.ps:
            for n in range(400 + sum(len(q.stack) for q in self.ps) + sum(len(s.script) for s in self.sources)):
                if not self.do_next(p, "next", None):
                    break
            else:
                self.bad("no-progress", "the iterator does not end")

    def add(self, real, src):
        p = P()
        p.id, p.real, p.stack, p.src, p.over = len(self.ps), real, [], src, False
        self.ps.append(p)

    def check_reads(self, allowed, what):
        for s, n in zip(self.sources, allowed):
            if s.reads > n:
                self.bad("read-ahead", f"{what} read the source {s.reads} times, at most {n} needed")
            s.reads = 0

    def root(self, p):
        while isinstance(p.src, P):
            p = p.src
        return p.src

    def do_next(self, p, how, default):
        src = self.root(p)
        want = self.expect_next(p)
        r = p.real
        if how == "next":
            o = outcome(lambda: next(r))
        elif how == "default":
            o = outcome(lambda: r.next(default))
        elif how == "bare":
            o = outcome(lambda: r.next()); default = None
        elif how == "builtin":
            o = outcome(lambda: next(r, default))
        else:
            def f():
                for x in r:
                    return x
                raise StopIteration
            o = outcome(f)
        self.settle()
        self.log.append((how, p.id, want[0], o[0], repr(o[1])[:60]))
        self.out.stats[how] += 1
        allowed = [0] * len(self.sources)
        if src is not None and want[2]:
            allowed[self.sources.index(src)] = want[2]
        what = f"{how} on iterator {p.id}"
        if want[0] == "ok":
            if o[0] != "ok" or o[1] is not want[1]:
                self.bad("wrong-value", f"{what} gave {o!r}, expected {want[1]!r}")
        elif want[0] == "fail":
            if o[0] != "raise" or o[1] is not src.failure:
                self.bad("failure-hidden", f"{what} gave {o!r} although the source failed with {want[1]}")
        else:
            if how in ("default", "bare", "builtin"):
                if o[0] != "ok" or o[1] is not default:
                    self.bad("end-of-data", f"{what} gave {o!r} at the end of the data, expected the default {default!r}")
            elif o[0] != "raise" or not isinstance(o[1], StopIteration):
                self.bad("end-of-data", f"{what} gave {o!r} at the end of the data")
            self.out.probes["end_of_data"] += 1
        self.check_reads(allowed, what)
        return want[0] == "ok"

    def step(self, op):
        kind = op[0]
        if kind == "times":
            for _ in range(op[1]):
                self.step(op[2])
            return
        p = self.ps[op[1] % len(self.ps)]
        out = self.out
        if kind == "push":
            v = VALUES[op[2]]
            if any(q.src is p and q.over for q in self.ps):
                return              # whether an iterator notices that its ended source starts again is nobody's promise
            o = outcome(lambda: p.real.push(v))
            out.stats["push"] += 1
            self.log.append(("push", p.id, repr(v)))
            if o[0] != "ok":
                self.bad("unexpected-exception", f"push: {o[1]!r}")
            p.stack.append(v)
            out.probes["pushed_at_the_end"] += p.over
            self.check_reads([0] * len(self.sources), "push")
        elif kind == "step":
            self.do_next(p, op[2], VALUES[op[3]])
        elif kind == "some":
            for _ in range(op[2]):
                if not self.do_next(p, "next", None):
                    break
        elif kind == "bool":
            self.do_bool(p)
        elif kind == "peekback":
            # the documented idiom: take one, look at it, push it back
            if any(q.src is p and q.over for q in self.ps):
                return
            want = self.expect_next(p)
            o = outcome(lambda: next(p.real))
            self.settle()
            out.stats["peekback"] += 1
            self.log.append(("peekback", p.id, want[0], o[0]))
            if want[0] == "ok":
                if o[0] != "ok" or o[1] is not want[1]:
                    self.bad("wrong-value", f"next on iterator {p.id} gave {o!r}, expected {want[1]!r}")
                p.real.push(o[1])
                p.stack.append(o[1])
            elif want[0] == "fail":
                if o[0] != "raise" or o[1] is not self.root(p).failure:
                    self.bad("failure-hidden", f"next on iterator {p.id} gave {o!r} although the source failed")
            elif o[0] != "raise" or not isinstance(o[1], StopIteration):
                self.bad("end-of-data", f"next on iterator {p.id} gave {o!r} at the end of the data")
            for s in self.sources:
                s.reads = 0
        elif kind == "iter":
            o = outcome(lambda: iter(p.real))
            if o[0] != "ok" or o[1] is not p.real:
                self.bad("iter", f"iter() gave {o!r}")
            self.check_reads([0] * len(self.sources), "iter")

    def do_bool(self, p):
        out = self.out
        src = self.root(p)
        # what a truth test must see; a peeked value is pushed back on p
        had = bool(p.stack)
        want = self.expect_next(p)
        o = outcome(lambda: bool(p.real))
        handed = self.settle()
        out.stats["bool"] += 1
        self.log.append(("bool", p.id, want[0], repr(o[1])))
        allowed = [0] * len(self.sources)
        if src is not None and not had:
            allowed[self.sources.index(src)] = want[2]
        if want[0] == "ok":
            p.stack.append(want[1])
            if o[0] != "ok" or o[1] is not True:
                self.bad("truth", f"bool of iterator {p.id} gave {o!r} although it has {want[1]!r} to yield")
            out.probes["peeked"] += not had
        elif want[0] == "fail":
            if o[0] != "raise" or o[1] is not src.failure:
                self.bad("failure-hidden", f"bool of iterator {p.id} gave {o!r} although the source failed with {want[1]}")
            out.probes["truth_test_failed"] += 1
        elif o[0] != "ok" or o[1] is not False:
            self.bad("truth", f"bool of iterator {p.id} gave {o!r} although nothing is left")
        self.check_reads(allowed, f"bool of iterator {p.id}")
        if want[0] == "ok" and handed and handed[0] is p:
            # the value read and the one pushed meanwhile: both are there, which is on top is not promised
            o = outcome(lambda: next(p.real))
            two = [p.stack.pop(), p.stack.pop()]
            if o[0] != "ok" or not any(o[1] is v for v in two):
                self.bad("wrong-value", f"after bool of iterator {p.id}, next gave {o!r}, expected one of {two!r}")
            p.stack.append(two[1] if o[1] is two[0] else two[0])
            p.stack.append(o[1])
            p.real.push(o[1])
            self.check_reads([0] * len(self.sources), f"next on iterator {p.id}")


class C15(runner.Check):
    id = "C15"
    lists = (("ops",), ("sources",), ("sources", "*", 1))
    real = ("big.itertools.PushbackIterator",)
    stubs = ("the sources and their failures, the readers",)
    time_unit = "operations"
    runs = {"quick": 90000, "thorough": 2000000}
    required_probes = ("asked_after_the_end", "peeked", "truth_test_failed", "pushed_at_the_end", "end_of_data", "source_pushed_while_read")
    assumptions = ("an iterator over a pushback iterator that has ended, and is pushed to then, is not judged", "readers are interleaved between operations: PushbackIterator does not claim to be thread safe")
    rule = ("one case = 1-3 sources (iterators, iterables, generators, false or None-equal ones) with scripted failures of 13 kinds, transient or fatal, read through 1-7 pushback iterators "
            "(several sharing one source, nested) by a random history of steps, default-valued steps, truth tests, pushes, some of them made by the source while it is read; non-trivial = a source failed; distinct by event log")

    def gen(self, rng, index, tier):
        sources = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kind = rng.choice(["iter", "iter", "iter", "falsy", "equal", "next", "iterable", "iterable_eq", "gen", "gen", "map", "calls"])
            pf = rng.choice([0, .15, .3, .6])
            script = [["f", rng.choice(list(EXCS))] if rng.random() < pf else ["v", rng.randrange(len(VALUES))] for _ in range(rng.choice([0, 1, 3, 6, 12]))]
            if rng.random() < .15:
                for i in script:
                    if rng.random() < .3:
                        i[0] = "push" + ("f" if i[0] == "f" else "")
                        i.append(rng.randrange(len(VALUES)))
            if script and rng.random() < .1:
                script.insert(rng.randrange(len(script)), ["end"])
            if kind == "gen":
                # GeneratorExit and StopIteration have a meaning of their own in a generator
                for i in script:
                    if i[0] in ("f", "pushf") and i[1] == "genexit":
                        i[1] = "plain"
            sources.append([kind, script])
        ops = []
        w = [rng.choice([.3, 1, 2]) for _ in range(6)]
        for _ in range(rng.choice([4, 8, 16, 40])):
            k = rng.choices(["push", "step", "bool", "peekback", "some", "iter"], [3 * w[0], 6 * w[1], 4 * w[2], 2 * w[3], .5 * w[4], .3])[0]
            p = rng.choice([0, 0, rng.randrange(8)])
            if k == "push":
                ops.append([k, p, rng.randrange(len(VALUES))])
            elif k == "step":
                ops.append([k, p, rng.choice(["next", "next", "default", "bare", "builtin", "for"]), rng.randrange(len(VALUES))])
            elif k == "some":
                ops.append([k, p, rng.randint(2, 12)])
            else:
                ops.append([k, p])
            if rng.random() < .002:
                ops[-1] = ["times", rng.choice([20, 40, 70, 140, 270, 520, 1100]), ops[-1]]
        if rng.random() < .01 and sources[0][1]:
            sources[0][1].insert(rng.randrange(len(sources[0][1])), ["many", rng.choice([40, 140, 520, 1100]), rng.randrange(9)])
        return {"sources": sources, "ops": ops, "shared": int(rng.random() < .3), "empty": rng.choice([0, 0, 0, 1, 2]), "nested": int(rng.random() < .25)}

    def run(self, case):
        out = runner.Outcome()
        try:
            World(case, out).run()
        except Violation as v:
            out.violation = (v.kind, v.detail)
        out.switches = []
        out.sim_time = len(out.log)
        out.steps = len(out.log)
        out.signature = runner.sig(out.log)
        out.nontrivial = bool(out.faults)
        return out
