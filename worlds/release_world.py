"""
C35: what has been delivered, removed, replaced or abandoned is let go.

Histories of use, with failing sources, hooks, clocks and comparisons, in which every value given to
the library can be watched from outside.  The simulator decides when the garbage collector runs
(the interpreter's own is off).  After each step a value which is no longer among the contents
the library reports, and which nobody else holds, must be gone after a collection at the latest.
"""
import gc
import sys
import weakref

from sim import runner, seams
from sim.kernel import Violation, HarnessError, Injected

LAG = 4        # items a stream may still be holding behind the one delivered last ...
SPARE = 8      # ... and strays it may hold from anywhere (a bounded number)


class Token:
    "A value: ordered, hashable, callable, and watched."
    def __init__(self, world, n):
        self.world, self.n = world, n

    def __eq__(self, other):
        return self.n == other.n if isinstance(other, Token) else NotImplemented

    def __hash__(self):
        return hash(self.n)

    def __lt__(self, other):
        if not isinstance(other, Token):
            return NotImplemented
        self.world.maybe_fail("comparison")
        return self.n < other.n

    def __le__(self, other):
        return self < other or self == other

    def __gt__(self, other):
        return other < self

    def __ge__(self, other):
        return other < self or self == other

    def __repr__(self):
        return f"token {self.n}"


class Text(str):
    "A string that can be watched."
    __slots__ = ("n", "__weakref__")


class World:
    def __init__(self, case, out):
        self.case, self.out, self.log = case, out, out.log
        self.refs = {}           # key -> (n, weak reference)
        self.count = 0
        self.fail = {}           # what fails, the how manyeth time
        self.armed = {}          # ... during the next operation

    # -- tokens --------------------------------------------------------------------
    def watch(self, o, n):
        self.count += 1
        self.refs[self.count] = (n, weakref.ref(o))

    def token(self, n, cls=Token):
        t = cls(self, n)
        self.watch(t, n)
        return t

    def string(self, s, n):
        t = Text(s)
        t.n = n
        self.watch(t, n)
        return t

    def maybe_fail(self, what):
        n = self.fail.get(what)
        if n is None:
            return
        if n:
            self.fail[what] = n - 1
            return
        del self.fail[what]
        self.out.faults[what + "_failed"] += 1
        raise Injected("injected failure of " + what)

    def attempt(self, fn):
        "The result stays in here."
        self.fail.update(self.armed)
        self.armed = {}
        try:
            fn()
            return "ok"
        except (Violation, HarnessError):
            raise
        except BaseException as e:
            if type(e).__module__ == "sim.runner":
                raise
            return type(e).__name__
        finally:
            if self.case["mode"] != "lines":
                self.fail = {}

    def stale(self, allowed):
        gone = []
        kept = []
        for k, (n, ref) in self.refs.items():
            if ref() is None:
                gone.append(k)
            elif n not in allowed:
                kept.append(n)
        for k in gone:
            del self.refs[k]
        self.out.stats["released"] += len(gone)
        return kept

    def judge(self, what, allowed, spare=0):
        kept = self.stale(allowed)
        if len(kept) > spare:
            self.out.stats["collections"] += 1
            gc.collect()
            kept = self.stale(allowed)
        if len(kept) > spare:
            raise Violation("kept", f"{what}: {len(kept)} value(s) are still alive though nothing reported contains them and nobody else holds them: number {sorted(kept)[:6]}")
        self.out.stats["judged"] += 1

    def finish(self, what):
        gc.collect()
        self.judge(what, ())

    # -- the scheduler -------------------------------------------------------------
    def scheduler(self):
        world = self
        mod = seams.fresh("scheduler")

        class Lock:
            def __enter__(self):
                return self
            def __exit__(self, *a):
                pass

        class Regulator:
            def __init__(self):
                self.t = 0
                self.lock = Lock()
            def now(self):
                world.maybe_fail("clock")
                return self.t
            def wake(self):
                world.maybe_fail("wake")
            def sleep(self, t):
                world.maybe_fail("sleep")
                self.t += t
        reg = Regulator()
        s = mod.Scheduler(reg)

        def contents():
            return {e.event.n for e in s.queue}

        def schedule(n, dt, absolute, prio):
            e = s.schedule(world.token(n), reg.t + dt if absolute else dt, absolute=absolute, priority=prio)
            world.watch(e, n)

        def cancel(i):
            q = s.queue
            q[i % len(q)].cancel() if q else None

        def cancel_twice(i):
            q = s.queue
            if q:
                e = q[i % len(q)]
                e.cancel()
                del q
                e.cancel()

        def some(k):
            for n, e in enumerate(s.non_blocking()):
                if n >= k:
                    break
        # iterators that are kept, whether they have come to their end or not
        iters = [s.non_blocking()]
        last = {}

        def one(i):
            if i % 3 == 2 and len(iters) < 4:
                iters.append(iter(s) if i % 2 else s.non_blocking())
            it = i % len(iters)
            # (a generator's frame would hold what it handed out last: that is its own affair)
            last.pop(it, None)
            v = next(iters[it], None)
            if v is not None:
                last[it] = v.n
        for op in self.case["ops"]:
            k, n, a, b = op
            if k == "put":
                r = self.attempt(lambda: schedule(n, a, b % 2, b // 2))
            elif k == "drop":
                r = self.attempt(lambda: (cancel if b % 2 else cancel_twice)(a))
            elif k == "take":
                r = self.attempt(lambda: next(s)) if b % 3 == 0 else self.attempt(lambda: some(a % 4)) if b % 3 == 1 else self.attempt(lambda: one(a))
            elif k == "fail":
                self.armed = {["clock", "wake", "sleep"][b % 3]: a % 3}
                continue
            elif k == "wait":
                reg.t += a
                continue
            else:
                r = self.attempt(lambda: (bool(s), len(s.queue)))
            self.log.append((k, n, r))
            self.judge(f"scheduler after {k} ({r})", contents() | set(last.values()))
        del s, contents, schedule, cancel, cancel_twice, some, iters, one
        self.finish("a scheduler that is gone")

    # -- heaps ----------------------------------------------------------------------
    def heap(self):
        mod = seams.fresh("heap")
        heaps = [mod.Heap()]
        iters = {}            # slot -> [iterator, numbers it may hold]
        probe = lambda n: Token(self, n)

        def source(ns, fail):
            for i, n in enumerate(ns):
                if i == fail:
                    self.out.faults["source_failed"] += 1
                    raise Injected("injected source failure")
                yield self.token(n)

        def allowed():
            r = {t.n for h in heaps for t in h}
            for it, may, h in iters.values():
                # (an iterator may hold its heap)
                r |= may
                r.update(t.n for t in h)
            return r

        def step(slot):
            it, may, _ = iters[slot]
            try:
                may.discard(next(it).n)
            except StopIteration:
                # it has nothing left
                may.clear()
        for k, n, a, b in self.case["ops"]:
            h = heaps[b % len(heaps)]
            if k == "put":
                r = self.attempt(lambda: h.append(self.token(n))) if b % 3 else self.attempt(lambda: h.extend(source(range(n, n + a % 7), None if b % 2 else a % 5)))
            elif k == "drop":
                live = sorted(allowed())
                want = live[a % len(live)] if live else n
                r = self.attempt(lambda: h.remove(probe(want)))
            elif k == "take":
                r = self.attempt([h.popleft, lambda: h.append_and_popleft(self.token(n)), lambda: h.popleft_and_append(self.token(n))][a % 3])
            elif k == "clear":
                r = self.attempt(h.clear)
            elif k == "copy":
                r = self.attempt(lambda: heaps.append(h.copy()))
                if len(heaps) > 3:
                    del heaps[a % 3]
            elif k == "look":
                r = self.attempt(lambda: (h[0], h[a % 5], h[:3], probe(n) in h, h.queue, h == heaps[0]))
            elif k == "iter":
                slot = a % 3
                if slot not in iters or a % 5 == 0:
                    iters[slot] = [iter(h), {t.n for t in h}, h]
                    r = "new"
                else:
                    r = self.attempt(lambda: step(slot))
                    if r == "RuntimeError" or a % 7 == 0:
                        del iters[slot]
            elif k == "fail":
                self.armed = {"comparison": a % 4}
                continue
            else:
                continue
            h = None
            self.log.append((k, n, r))
            self.judge(f"heaps after {k} ({r})", allowed())
        h = None
        heaps.clear()
        iters.clear()
        self.finish("heaps that are gone")

    # -- graphs ------------------------------------------------------------------------
    def graph(self):
        mod = seams.fresh("graph")
        TS = mod.TopologicalSorter
        graphs = [[TS(), set()]]
        views = {}
        orders = {}
        probe = lambda n: Token(self, n)

        def view_count():
            return sum(type(o) is TS.View for o in gc.get_objects())

        def add(g, model, ns):
            g.add(*[self.token(n) for n in ns])
            model.update(ns)

        def remove(g, model, n):
            g.remove(probe(n))
            model.discard(n)

        def work(v, a):
            got = [t.n for t in v.ready()]
            if a % 3:
                v.done(*[probe(n) for n in got])

        def order(slot, a):
            for _ in range(a):
                next(orders[slot])
        for k, n, a, b in self.case["ops"]:
            g, model = graphs[b % len(graphs)]
            slot = a % 3
            n %= 12
            if k == "put":
                r = self.attempt(lambda: add(g, model, [n] + [(n + a * (i + 1)) % 12 for i in range(b % 4)]))
            elif k == "drop":
                r = self.attempt(lambda: remove(g, model, n))
            elif k == "take":
                if slot not in views:
                    views[slot] = g.view()
                    r = "view"
                else:
                    r = self.attempt(lambda: work(views[slot], b))
            elif k == "close":
                # (a view that is dropped without closing it stays with its graph)
                r = self.attempt(lambda: views.pop(slot).close()) if slot in views else "none"
            elif k == "reset":
                r = self.attempt(lambda: (views[slot].reset() if slot in views else g.reset()))
            elif k == "look":
                r = self.attempt(lambda: (g.cycle(), [bool(v) for v in views.values()], repr(g)))
            elif k == "order":
                if slot not in orders:
                    orders[slot] = g.static_order()
                r = self.attempt(lambda: order(slot, 1 + b % 3))
                if r != "ok" or b % 4 == 0:
                    # ended or abandoned
                    del orders[slot]
                    self.out.probes["order_" + ("ended" if r == "StopIteration" else "failed" if r != "ok" else "abandoned")] += 1
            elif k == "copy":
                graphs.append([g.copy(), set(model)])
                r = "ok"
                if len(graphs) > 3:
                    # its views and orders with it
                    gone = graphs.pop(0)[0]
                    for d in (views, orders):
                        d.clear()
                    del gone
            elif k == "clear":
                for m in sorted(model):
                    self.attempt(lambda: remove(g, model, m))
                r = "ok"
            else:
                continue
            del g
            self.log.append((k, n, r))
            # (a node of a suspended order is held by its list of ready nodes)
            self.judge(f"graphs after {k} ({r})", set().union(*[m for _, m in graphs]) | (set(range(12)) if orders else set()))
            if k in ("order", "close", "copy") and not views:
                gc.collect()
                self.out.stats["views_counted"] += 1
                most = 2 * len(graphs) + len(orders)
                # (copying drops views without closing them)
                if len(graphs) == 1 and view_count() > most:
                    raise Violation("kept", f"after {k} ({r}) {view_count()} views are alive; {len(graphs)} graph(s) with two of their own and {len(orders)} orders in progress account for {most}")
        graphs.clear()
        views.clear()
        orders.clear()
        self.finish("graphs that are gone")

    # -- pushback iterators -----------------------------------------------------------
    def pushback(self):
        mod = seams.fresh("itertools")
        world = self
        case = self.case
        held = set()
        made = [1000]
        ended = [False]

        class Source:
            def __init__(self, items):
                self.left = items
            def __iter__(self):
                return self
            def __next__(self):
                world.maybe_fail("source")
                if not self.left:
                    ended[0] = True
                    raise StopIteration
                self.left -= 1
                made[0] += 1
                held.add(made[0])
                return world.token(made[0])
        src = Source(case["items"])
        self.watch(src, "source")
        if case["gen"]:
            # (a generator would hold what it supplied last)
            src = map(lambda t: t, src)
        p = mod.PushbackIterator(src)
        del src

        def push(n):
            held.add(n)
            p.push(self.token(n))

        def take(how, n):
            if how == 0:
                t = next(p)
            elif how == 1:
                t = p.next(self.token(n))
            else:
                t = p.next()
            if t is not None:
                held.discard(t.n)
        for k, n, a, b in case["ops"]:
            if k == "put":
                r = self.attempt(lambda: push(n))
            elif k in ("take", "drop"):
                r = self.attempt(lambda: take(a % 3, n))
            elif k == "look":
                r = self.attempt(lambda: (bool(p), repr(p)))
            elif k == "fail":
                self.armed = {"source": a % 2}
                continue
            else:
                continue
            self.log.append((k, n, r))
            self.judge(f"pushback iterator after {k} ({r})", held | (set() if ended[0] else {"source"}))
            self.out.probes["source_ended"] += ended[0]
        del p, push, take, Source
        self.finish("a pushback iterator that is gone")

    # -- state machines ------------------------------------------------------------------
    def state(self):
        mod = seams.fresh("state")
        world = self

        class S(Token):
            def on_enter(self):
                world.maybe_fail("on_enter")
                if self.n % 5 == 0 and world.chain:
                    world.chain -= 1
                    sm.state = world.token(self.n + 1, S)
            def on_exit(self):
                world.maybe_fail("on_exit")
            def act(self, *a):
                world.maybe_fail("action")
                return self.n

        class Observer(Token):
            def __call__(self, m):
                world.maybe_fail("observer")
                if self.n % 4 == 0 and self in m.observers:
                    m.observers.remove(self)

        @mod.accessor()
        class Machine:
            def __init__(self):
                world.chain = 0
                self.state_manager = mod.StateManager(world.token(-1, S), state_class=S)
            @mod.dispatch()
            def act(self, *a): ...
        world.chain = 0
        sm = Machine()
        m = sm.state_manager

        def put(n, a):
            if a % 3:
                sm.state = world.token(n, S)
            else:
                m.state = world.token(n, S)
        for k, n, a, b in self.case["ops"]:
            world.chain = b % 3
            if k == "put":
                r = self.attempt(lambda: put(n, a))
            elif k == "take":
                r = self.attempt(lambda: m.observers.append(self.token(n, Observer)))
            elif k == "drop":
                r = self.attempt(lambda: m.observers.pop(a % 2))
            elif k == "look":
                r = self.attempt(lambda: sm.act(self.token(n)))
            elif k == "clear":
                # something that may not be a state
                r = self.attempt(lambda: setattr(m, "state", self.token(n)))
            elif k == "fail":
                self.armed = {["on_enter", "on_exit", "observer", "action"][b % 4]: a % 2}
                continue
            else:
                continue
            self.log.append((k, n, r))
            self.judge(f"state machine after {k} ({r})", {m.state.n} | {o.n for o in m.observers})
        # (the classes hold them too)
        world.chain = 0
        sm = m = put = S = Observer = Machine = None
        self.finish("a state machine that is gone")

    # -- logs ---------------------------------------------------------------------------
    def logs(self):
        mod = seams.fresh("log")
        now = [0]

        def clock():
            self.maybe_fail("clock")
            now[0] += 7
            return now[0]

        def out(*a):
            self.maybe_fail("output")
        log = mod.Log(clock=clock)
        iters = {}
        stack = []

        def contents():
            r = set(stack)
            for t, e, event, d in log:
                r.add(getattr(event, "n", None))
            for it, may in iters.values():
                r |= may
            return r

        def enter(n):
            log.enter(self.string(f"sub {n}", n))
            stack.append(n)

        def leave():
            log.exit()
            stack.pop()

        def reset():
            # (an iterator may walk over the list of events itself)
            before = contents()
            for it, may in iters.values():
                may |= before
            log.reset()
            stack.clear()

        def step(slot):
            it, may = iters[slot]
            try:
                next(it)
            except StopIteration:
                may.clear()
        for k, n, a, b in self.case["ops"]:
            if k == "put":
                r = self.attempt(lambda: log(self.string(f"event {n}", n)))
            elif k == "take":
                r = self.attempt(lambda: enter(n)) if b % 2 or not stack else self.attempt(leave)
            elif k in ("clear", "drop"):
                r = self.attempt(reset)
            elif k == "look":
                r = self.attempt(lambda: log.print(print=out))
            elif k == "iter":
                slot = a % 3
                if slot not in iters or a % 5 == 0:
                    iters.pop(slot, None)
                    iters[slot] = [iter(log), contents()]
                    r = "new"
                else:
                    # (it may take its snapshot at the first step)
                    iters[slot][1].update(contents())
                    r = self.attempt(lambda: step(slot))
            elif k == "fail":
                self.armed = {["clock", "output"][b % 2]: a % 2}
                continue
            else:
                continue
            self.log.append((k, n, r))
            self.judge(f"log after {k} ({r})", contents())
        del log, contents, enter, leave, reset, step
        iters.clear()
        self.finish("a log that is gone")

    # -- pipelines of lines -----------------------------------------------------------------
    def lines(self):
        mod = seams.fresh("text")
        world = self
        case = self.case
        plain = ["ab", "  x y", "", "    z # c", "\tq", "    ", "k 'v' # d", "  // e", "l m  "]
        src_ended = []

        class Source:
            def __init__(self, n):
                self.i, self.n = -1, n
            def __iter__(self):
                return self
            def __next__(self):
                world.maybe_fail("source")
                self.i += 1
                if self.i >= self.n:
                    src_ended.append(1)
                    raise StopIteration
                s = plain[(self.i * case["mix"] + self.i // 7) % len(plain)]
                if case["flat"]:
                    s = s.strip() or "x"
                t = world.string(s, self.i)
                return (t, "\n") if case["pairs"] else t
        src = Source(case["items"])
        self.watch(src, "source")
        li = mod.lines(src)
        del src
        for st in case["stages"]:
            li = [lambda x: mod.lines_rstrip(x), lambda x: mod.lines_strip(x), lambda x: mod.lines_filter_line_comment_lines(x, ("#", "//")),
                  lambda x: mod.lines_containing(x, "q", invert=True), lambda x: mod.lines_grep(x, "[a-z]?"), lambda x: mod.lines_strip_line_comments(x, ("#", "//"), quotes=("'",)),
                  lambda x: mod.lines_convert_tabs_to_spaces(x), lambda x: mod.lines_strip_indent(x), lambda x: mod.lines_filter_empty_lines(x)][st](li)
        if case["fail"] is not None:
            self.fail = {"source": case["fail"]}
        taken = [0]

        def step():
            info, line = next(li)
            n = info.line_number - 1
            world.watch(info, n)
            taken[0] = n
        for _ in range(case["take"]):
            r = self.attempt(step)
            self.log.append((taken[0], r))
            if r != "ok":
                break
            now = taken[0]
            old = now - LAG - len(case["stages"])
            self.judge(f"pipeline after line {now}", Recent(old), SPARE)
        self.out.probes["pipeline_abandoned"] += r == "ok" if case["take"] else 0
        del li, step, Source
        self.finish("a pipeline that is gone")

    # -- splitting ----------------------------------------------------------------------------
    def split(self):
        "A splitter that has ended or been abandoned lets go of the text and of every piece."
        mod = seams.fresh("text")
        case = self.case
        unit = ["ab cd\n", "(ab) cd ", "'ab' cd ", "ab,cd;ef ", "aB Cd "][case["unit"]]
        s = self.string(unit * case["times"], "text")
        how = case["how"]
        seps = [None, (" ", "\n"), (",", ";", " "), ("ab", "cd")][case["seps"]]
        if how == 0:
            it = mod.multisplit(s, seps, keep=[False, True, mod.ALTERNATING, mod.AS_PAIRS][case["keep"]], separate=bool(case["mix"] % 2), strip=bool(case["mix"] // 2 % 2), reverse=bool(case["mix"] // 4 % 2))
        elif how == 1:
            it = mod.split_delimiters(s)
        elif how == 2:
            it = mod.split_quoted_strings(s)
        elif how == 3:
            it = mod.lines(s)
        elif how == 4:
            it = mod.split_title_case(s)
        else:
            it = mod.reversed_re_finditer("[a-z]+", s)
        del s
        pieces = []

        def pull():
            p = next(it)
            stack = [p]
            while stack:
                x = stack.pop()
                if type(x) is tuple:
                    stack += x
                elif type(x) is str and len(x) > 1:
                    pieces.append(x)
        r = "none"
        for n in range(case["take"]):
            r = self.attempt(pull)
            if r != "ok":
                break
        # (text cannot be watched: count references, when all that is left is our list's)
        del it, pull
        seen = {}
        for x in pieces:
            seen[id(x)] = seen.get(id(x), 0) + 1
        x = None

        def held():
            # (one more: the reference of the call)
            return sum(sys.getrefcount(pieces[i]) > seen[id(pieces[i])] + 1 for i in range(len(pieces)))
        kept = held()
        if kept > SPARE:
            gc.collect()
            kept = held()
        self.out.stats["judged"] += 1
        if kept > SPARE:
            raise Violation("kept", f"{kept} of {len(pieces)} pieces are still held after the iterator is gone")
        self.log.append((how, case["take"], r, len(pieces)))
        self.out.probes["split_abandoned"] += r == "ok"
        self.out.stats["pieces"] += len(pieces)
        pieces.clear()
        self.finish("an iterator that is gone")

    # -- calls ---------------------------------------------------------------------------------
    def calls(self):
        text = seams.fresh("text")
        ver = seams.fresh("version")
        fil = seams.fresh("file")
        tim = seams.fresh("time")
        fns = [
            ("multisplit", lambda s: list(text.multisplit(s, (" ", ",")))),
            ("multistrip", lambda s: text.multistrip(s, (" ", "x"))),
            ("multipartition", lambda s: text.multipartition(s, (" ", ","))),
            ("multirpartition", lambda s: text.multirpartition(s, (" ", ","))),
            ("re_partition", lambda s: text.re_partition(s, "[ ,]")),
            ("re_rpartition", lambda s: text.re_rpartition(s, "[ ,]")),
            ("gently_title", lambda s: text.gently_title(s)),
            ("normalize_whitespace", lambda s: text.normalize_whitespace(s)),
            ("split_title_case", lambda s: list(text.split_title_case(s))),
            ("wrap_words", lambda s: text.wrap_words(text.split_text_with_code(s))),
            ("split_quoted_strings", lambda s: list(text.split_quoted_strings(s))),
            ("split_delimiters", lambda s: list(text.split_delimiters(s))),
            ("lines", lambda s: [l for i, l in text.lines_strip(text.lines(s))]),
            ("merge_columns", lambda s: text.merge_columns((s, 5, 60))),
            ("combine_splits", lambda s: list(text.combine_splits(s, s.split(" ")))),
            ("python_delimiters", lambda s: list(text.split_delimiters(s, {"(": ")", "[": "]"}))),
            ("Version", lambda s: ver.Version(s)),
            ("translate_filename", lambda s: (fil.translate_filename_to_exfat(s), fil.translate_filename_to_unix(s))),
            ("translate_filename_stamp", lambda s: tim.parse_timestamp_3339Z(s)),
            ("encode_strings", lambda s: text.encode_strings([s])),
            ("fgrep", lambda s: fil.fgrep("/dev/null", s)),
        ]
        plain = ["a b,c", "1.2.3", "x (y) [z]", "it's a 'b' \"c\"", "fooBar Baz", "a\n\nb\n    c", "2020-01-02T03:04:05Z", "(", "'", "", "  x  "]
        for k, n, a, b in self.case["ops"]:
            name, fn = fns[n % len(fns)]
            r = self.attempt(lambda: fn(self.string(plain[a % len(plain)] + ("" if b % 2 else " "), n)))
            self.log.append((name, r))
            self.judge(f"{name}() ({r})", ())
        self.finish("calls")

    # -- bound inner classes -------------------------------------------------------------------
    def bic(self):
        mod = seams.fresh("boundinnerclass")
        world = self

        class Outer:
            @mod.BoundInnerClass
            class Base:
                def __init__(self, outer, fail=False):
                    world.maybe_fail("construction")
                    self.ok = outer is not None
            @mod.BoundInnerClass
            class Child(Base.cls if hasattr(Base, "cls") else Base):
                def __init__(self, outer):
                    world.maybe_fail("construction")
                    self.ok = outer is not None
            @mod.UnboundInnerClass
            class Free:
                pass
        outers = {}
        classes = {}
        instances = {}

        def cls(n, a, slot):
            c = getattr(outers[n], ("Base", "Child", "Free")[a % 3])
            classes[slot] = c
            if self.case["classes"]:
                self.watch(c, ("class", n))

        def make(n, a, slot):
            instances[slot] = getattr(outers[n], ("Base", "Free")[a % 2])()
        for k, n, a, b in self.case["ops"]:
            n %= 4
            slot = b % 5
            if k == "put":
                o = Outer()
                self.watch(o, n)
                outers[n] = o
                del o
                r = "ok"
            elif k == "take" and n in outers:
                r = self.attempt(lambda: cls(n, a, slot))
            elif k == "look" and n in outers:
                r = self.attempt(lambda: make(n, a, slot))
            elif k == "drop":
                outers.pop(n, None)
                r = "ok"
            elif k == "clear":
                (classes if a % 2 else instances).pop(slot, None)
                r = "ok"
            elif k == "fail":
                self.armed = {"construction": 0}
                continue
            else:
                continue
            self.log.append((k, n, r))
            live = set(outers)
            # bound classes live as long as their outer object, an instance or a holder
            self.judge(f"outer objects after {k} ({r})", live | {("class", i) for i in range(4)})
            self.out.probes["class_outlives_outer"] += bool(classes) and len(outers) < 2
        for d in (outers, classes, instances):
            d.clear()
        # a class can hold what it was defined with
        self.finish("outer objects that are gone")

    def run(self):
        getattr(self, self.case["mode"])()


class Recent:
    "Everything but lines up to a number."
    def __init__(self, old):
        self.old = old
    def __contains__(self, n):
        return n == "source" or n > self.old


class C35(runner.Check):
    id = "C35"
    lists = (("ops",), ("stages",))
    real = ("big.scheduler.Scheduler, big.heap.Heap, big.graph.TopologicalSorter and its views, big.itertools.PushbackIterator, big.state, big.log.Log, big.text's line pipelines, splitters and functions, big.boundinnerclass",)
    stubs = ("clock, sleep, wake, sources, hooks, observers, outputs and comparisons, all of which can fail", "when the garbage collector runs")
    time_unit = "operations"
    runs = {"quick": 120000, "thorough": 3000000}
    required_probes = ("order_ended", "order_abandoned", "source_ended", "pipeline_abandoned", "split_abandoned", "class_outlives_outer")
    assumptions = ("a view of a graph belongs to the graph until it is closed", "arguments that configure a splitter (separators, delimiters, patterns) may be kept in caches",
                   f"a stream may hold the {LAG} items before the one delivered last, one more for each stage, and {SPARE} more",
                   "lines_sort holds its whole input and is left out")
    rule = ("one case = a history of 5-60 operations on one part of the library (scheduler, heaps, graphs, pushback iterator, state machine, log, line pipeline, splitter, text functions, bound inner classes) with failures "
            "injected in whatever it calls; after each operation everything not reported as contents must be gone after a collection; non-trivial = something was released and judged; distinct by event log")

    def setup(self):
        gc.disable()
        for m in ("scheduler", "heap", "graph", "itertools", "state", "log", "text", "version", "file", "time", "boundinnerclass"):
            seams.fresh(m)
        gc.collect()
        gc.freeze()

    MODES = {"scheduler": 3, "heap": 3, "graph": 4, "pushback": 3, "state": 3, "logs": 2, "lines": 3, "split": 3, "calls": 2, "bic": 2}
    OPS = {"scheduler": {"put": 5, "drop": 2, "take": 4, "fail": 2, "wait": 2, "look": 1}, "heap": {"put": 6, "drop": 3, "take": 4, "clear": .5, "copy": 1, "look": 2, "iter": 5, "fail": 2},
           "graph": {"put": 7, "drop": 3, "take": 6, "close": 1, "reset": 1, "look": 1, "order": 2, "copy": .4, "clear": .4}, "pushback": {"put": 3, "take": 6, "look": 4, "fail": 2},
           "state": {"put": 6, "take": 2, "drop": 1, "look": 2, "clear": 1, "fail": 3}, "logs": {"put": 6, "take": 3, "clear": 1, "look": 1, "iter": 3, "fail": 2}, "calls": {"put": 1},
           "bic": {"put": 3, "take": 4, "look": 3, "drop": 3, "clear": 2, "fail": 1}}

    def gen(self, rng, index, tier):
        mode = rng.choices(list(self.MODES), list(self.MODES.values()))[0]
        case = {"mode": mode, "ops": [], "stages": []}
        if mode in self.OPS:
            w = {k: v * rng.choice([.2, 1, 1, 3]) for k, v in self.OPS[mode].items()}
            if mode == "graph" and rng.random() < .4:
                # (views are only counted where all are accounted for)
                w["take"] = w["copy"] = 0
                w["order"] *= 4
            for n in range(rng.choice([5, 10, 20, 40, 60])):
                case["ops"].append([rng.choices(list(w), list(w.values()))[0], rng.randrange(1000) if mode in ("calls", "graph", "bic") else n + 1000 * (mode == "heap") * n, rng.randrange(12), rng.randrange(12)])
        if mode == "bic":
            case["classes"] = rng.randrange(2)
        if mode == "pushback":
            case.update(items=rng.choice([0, 2, 5, 20]), gen=rng.randrange(2))
        if mode == "lines":
            case.update(items=rng.choice([10, 40, 120]), mix=rng.choice([1, 2, 4, 5]), pairs=rng.randrange(2), flat=rng.randrange(2), stages=[rng.randrange(9) for _ in range(rng.choice([0, 1, 2, 4]))],
                        take=rng.choice([5, 30, 100, 130]), fail=rng.choice([None, None, rng.randrange(60)]))
        if mode == "split":
            case.update(unit=rng.randrange(5), times=rng.choice([1, 10, 40, 100]), how=rng.choice([0, 0, 0, 1, 2, 3, 4, 5]), seps=rng.randrange(4), keep=rng.randrange(4), mix=rng.randrange(8), take=rng.choice([1, 10, 50, 200, 500]))
        return case

    def run(self, case):
        out = runner.Outcome()
        try:
            World(case, out).run()
        except Violation as v:
            out.violation = (v.kind, v.detail)
        out.switches = []
        out.sim_time = out.steps = len(out.log)
        out.signature = runner.sig((case["mode"], out.log))
        out.nontrivial = out.stats["released"] > 0
        return out
