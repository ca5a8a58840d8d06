"""
C09-C14: topological sorters used by simulated workers while the graph is
edited, viewed, copied and reset.

Workers take ready nodes and finish them after random virtual durations, or
crash and never finish (a supervisor may report their nodes later).  Every
monitor judges the real graph from the observed history alone (edits that
succeeded, nodes handed out, nodes successfully reported done), so the six
checks do not depend on one another.
"""
import copy
import heapq
import re

from sim import runner, seams
from sim.kernel import Violation, HarnessError, Injected, injected, ORDINARY
from worlds.lazy_world import Interrupt, Interrupter


class BadHash:
    def __init__(self, exc):
        self.exc = exc
    def __hash__(self):
        raise self.exc
    def __repr__(self):
        return "BadHash()"


class BadEq:
    "An object that cannot be compared to what it collides with."
    def __init__(self, like, exc):
        self.h = hash(like)
        self.exc = exc
    def __hash__(self):
        return self.h
    def __eq__(self, o):
        raise self.exc
    def __repr__(self):
        return "BadEq()"


class Collider:
    "A node that shares its hash with all its kind, and is equal by value."
    def __init__(self, n):
        self.n = n
    def __hash__(self):
        return 7
    def __eq__(self, o):
        return self.n == o.n if isinstance(o, Collider) else NotImplemented
    def __repr__(self):
        return f"N{self.n}"


PALETTES = [
    list("abcdefghijkl"),
    list(range(12)),
    [0, "", None, (), 1, "a", (1, 2), frozenset(), 2.5, "b", b"x", -1],
    list(range(300)),
    [Collider(i) for i in range(12)],
    # distinct objects, some of them equal
    [1, 1.0, True, 0, False, "1", (1,), (1.0,), Collider(1), Collider(1), -1, "x"],
]


class MView:
    __slots__ = ("id", "g", "real", "yielded", "done", "closed", "default", "outstanding", "ever", "lost", "history")
    def __init__(self, id, g, real, default):
        self.id, self.g, self.real, self.default = id, g, real, default
        self.yielded = set()
        self.done = set()
        self.outstanding = []
        self.lost = []
        self.closed = False
        self.history = None


class MGraph:
    __slots__ = ("id", "real", "preds", "views", "default")
    def __init__(self, id, real):
        self.id, self.real = id, real
        self.preds = {}
        self.views = []

    def add(self, node, deps):
        self.preds.setdefault(node, {})
        for d in deps:
            self.preds.setdefault(d, {})
            self.preds[node][d] = None

    def remove(self, node):
        del self.preds[node]
        for p in self.preds.values():
            p.pop(node, None)

    def cyclic(self):
        count = {n: len(p) for n, p in self.preds.items()}
        succ = {n: [] for n in self.preds}
        for n, ps in self.preds.items():
            for p in ps:
                succ[p].append(n)
        q = [n for n, c in count.items() if not c]
        seen = 0
        while q:
            n = q.pop()
            seen += 1
            for s in succ[n]:
                count[s] -= 1
                if not count[s]:
                    q.append(s)
        return seen != len(self.preds)


def outcome(fn):
    "Run fn; return ('ok', value) or ('raise', exception)."
    try:
        return ("ok", fn())
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return ("raise", e)


class GraphRun:
    def __init__(self, case, out, focus):
        self.case = case
        self.out = out
        self.focus = focus
        self.log = out.log
        self.mod = seams.fresh("graph")
        self.CycleError = self.mod.CycleError
        self.pal = PALETTES[case["palette"]]
        self.graphs = []
        self.views = []
        self.time = 0
        self.agenda = []           # (time, n, view id, node)
        self.n = 0
        # resolved history: (kind, graph or view id, args, outcome)
        self.hist = []

    # -- helpers ---------------------------------------------------------
    def bad(self, prop, kind, detail):
        if self.focus == prop:
            raise Violation(kind, detail)

    def note(self, *e):
        self.log.append((self.time,) + e)

    def new_graph(self, real):
        g = MGraph(len(self.graphs), real)
        self.graphs.append(g)
        g.default = self.new_view(g, None, True)
        return g

    def new_view(self, g, real, default=False):
        v = MView(len(self.views), g, real, default)
        self.views.append(v)
        g.views.append(v)
        return v

    def rv(self, v):
        return v.g.real if v.default else v.real

    def conflict(self, v):
        handed = v.yielded | v.done
        return any(p not in v.done for n in handed for p in v.g.preds.get(n, ()))

    def waiting(self, v):
        return [n for n in v.g.preds if n not in v.yielded and n not in v.done]

    def err(self, o):
        return f"{type(o[1]).__name__}: {o[1]}" if o[0] == "raise" else repr(o[1])

    def classify(self, o):
        "Which documented outcome is this?"
        if o[0] == "ok":
            return "ok"
        e = o[1]
        if isinstance(e, Injected):
            return "injected"
        if isinstance(e, self.CycleError):
            return "cycle"
        if isinstance(e, RuntimeError):
            return "incoherent"
        if isinstance(e, ValueError):
            return "value"
        if isinstance(e, TypeError):
            return "type"
        return "other"

    def expect_use(self, v, o, what, cyc_matters):
        """
        Common monitor for ready/done/bool on an open view; returns True if the
        call went through.  Judges incoherence (C11) and cycles (C12).
        """
        c = self.classify(o)
        conf = self.conflict(v)
        cyc = cyc_matters and v.g.cyclic()
        if c == "ok":
            if conf:
                self.bad("C11", "incoherence-missed", f"{what} on view {v.id} succeeded although a handed-out node depends on an unfinished one: {self.show(v)}")
            if cyc:
                self.bad("C12", "cycle-missed", f"{what} on view {v.id} succeeded although the graph has a cycle: {self.show(v)}")
            return True
        if c == "incoherent":
            if not conf:
                self.bad("C11", "false-incoherence", f"{what} on view {v.id} raised {self.err(o)}: {self.show(v)}")
            else:
                self.out.probes["incoherent"] += 1
                self.named(v, what, o[1])
            return False
        if c == "cycle":
            if not cyc:
                self.bad("C12", "false-cycle", f"{what} on view {v.id} raised {self.err(o)}: {self.show(v)}")
            elif len(o[1].args) > 1:
                self.judge_cycle(v.g, o[1].args[1])
            self.out.probes["cycle_error"] += 1
            return False
        if c == "value" and what == "done":
            return False
        if self.focus in ("C09", "C10") or (self.focus == "C11" and conf) or (self.focus == "C12" and cyc) or c == "other":
            raise Violation("unexpected-exception", f"{what} on view {v.id}: {self.err(o)}: {self.show(v)}")
        return False

    def named(self, v, what, e):
        "Which nodes does the exception name?  (Asked where no name can be part of anything else.)"
        if not all(isinstance(n, Collider) for n in v.g.preds):
            return
        involved = set()
        for n in v.yielded | v.done:
            for p in v.g.preds.get(n, ()):
                if p not in v.done:
                    involved |= {repr(n), repr(p)}
        got = set(re.findall(r"\bN\d+\b", str(e)))
        if got != involved:
            self.bad("C11", "wrong-nodes-named", f"{what} on view {v.id} named {sorted(got)}, the contradiction is between {sorted(involved)}: {self.err(('raise', e))}: {self.show(v)}")
        self.out.probes["contradiction_named"] += 1

    def show(self, v):
        return f"preds={ {n: list(p) for n, p in v.g.preds.items()} } yielded={v.yielded} done={v.done}"

    # -- workers -----------------------------------------------------------
    def pass_time(self):
        self.time += 1
        while self.agenda and self.agenda[0][0] <= self.time:
            _, _, vid, node = heapq.heappop(self.agenda)
            v = self.views[vid]
            if v.closed or node not in v.outstanding:
                continue
            self.do_done(v, [node])

    def do_ready(self, v, alias=0):
        r = self.rv(v)
        fn = r.get_ready if (alias and v.default) else r.ready
        o = outcome(lambda: tuple(fn()))
        if o[0] == "ok":
            self.hist.append(("ready", v.id, (), ("ok", frozenset(o[1]), len(o[1]))))
        else:
            self.hist.append(("ready", v.id, (), ("raise", self.classify(o))))
        self.out.stats["ready"] += 1
        self.note("ready", v.id, sorted(map(repr, o[1])) if o[0] == "ok" else self.classify(o))
        conf = self.conflict(v)
        if not self.expect_use(v, o, "ready", True):
            return None
        got = o[1]
        if len(set(got)) != len(got):
            self.bad("C09", "handed-out-twice", f"ready() on view {v.id} returned {got}")
        for n in got:
            if n not in v.g.preds:
                self.bad("C09", "handed-out-unknown", f"ready() on view {v.id} returned {n!r}, which is not in the graph: {self.show(v)}")
            elif n in v.yielded or n in v.done:
                self.bad("C09", "handed-out-twice", f"ready() on view {v.id} returned {n!r} again: {self.show(v)}")
            else:
                undone = [p for p in v.g.preds[n] if p not in v.done]
                if undone:
                    self.bad("C09", "handed-out-early", f"ready() on view {v.id} returned {n!r} although {undone} are not done: {self.show(v)}")
        if not got and not conf and self.waiting(v) and not v.yielded and not v.g.cyclic():
            self.bad("C10", "stranded", f"ready() on view {v.id} returned nothing although {self.waiting(v)} remain and nothing is outstanding: {self.show(v)}")
        for n in got:
            v.yielded.add(n)
            v.outstanding.append(n)
        return got

    def do_done(self, v, nodes, raw=None):
        """nodes: distinct nodes believed outstanding; raw: the actual argument list."""
        args = nodes if raw is None else raw
        r = self.rv(v)
        o = outcome(lambda: r.done(*args))
        self.hist.append(("done", v.id, tuple(args), ("ok",) if o[0] == "ok" else ("raise", self.classify(o))))
        self.out.stats["done"] += 1
        self.note("done", v.id, list(map(repr, args)), self.classify(o))
        conf = self.conflict(v)
        valid = all(n in v.yielded and n in v.g.preds for n in nodes)
        ok = self.expect_use(v, o, "done", False)
        c = self.classify(o)
        if ok:
            if not valid:
                self.bad("C14", "bad-done-accepted", f"done{tuple(args)} on view {v.id} was accepted: {self.show(v)}")
            for n in nodes:
                if n in v.yielded:
                    v.yielded.discard(n)
                    v.done.add(n)
                    if n in v.outstanding:
                        v.outstanding.remove(n)
        elif c == "value":
            if valid and not conf:
                if self.focus in ("C09", "C10", "C14"):
                    raise Violation("good-done-refused", f"done{tuple(args)} on view {v.id}: {self.err(o)}: {self.show(v)}")
        elif c not in ("incoherent",):
            if valid or self.focus == "C14":
                if self.focus in ("C09", "C10", "C14"):
                    raise Violation("unexpected-exception", f"done{tuple(args)} on view {v.id}: {self.err(o)}")
        return ok

    def do_bool(self, v):
        r = self.rv(v)
        o = outcome(lambda: bool(r))
        self.hist.append(("bool", v.id, (), ("ok", o[1]) if o[0] == "ok" else ("raise", self.classify(o))))
        self.out.stats["bool"] += 1
        if not self.expect_use(v, o, "bool", False):
            return None
        want = len(v.done) < len(v.g.preds)
        if o[1] != want and not self.conflict(v):
            self.bad("C10", "truth", f"bool of view {v.id} is {o[1]}: {self.show(v)}")
        return o[1]

    # -- operations ---------------------------------------------------------
    def graph(self, i):
        return self.graphs[i % len(self.graphs)]

    def view(self, i):
        return self.views[i % len(self.views)]

    def node(self, i):
        return self.pal[i % len(self.pal)]

    def step(self, op):
        kind = op[0]
        out = self.out
        out.stats[kind] += 1
        if kind == "add":
            g = self.graph(op[1])
            node, deps = self.node(op[2]), [self.node(d) for d in op[3]]
            o = outcome(lambda: g.real.add(node, *deps))
            self.hist.append(("add", g.id, (node, tuple(deps)), ("ok",) if o[0] == "ok" else ("raise", self.classify(o))))
            self.note("add", g.id, repr(node), list(map(repr, deps)), self.classify(o))
            if o[0] != "ok":
                raise Violation("unexpected-exception", f"add({node!r}, *{deps!r}): {self.err(o)}")
            g.add(node, deps)
        elif kind == "remove":
            g = self.graph(op[1])
            present = list(g.preds)
            if not present:
                return
            node = present[op[2] % len(present)]
            o = outcome(lambda: g.real.remove(node))
            self.hist.append(("remove", g.id, (node,), ("ok",) if o[0] == "ok" else ("raise", self.classify(o))))
            self.note("remove", g.id, repr(node), self.classify(o))
            if o[0] != "ok":
                raise Violation("unexpected-exception", f"remove({node!r}): {self.err(o)}")
            self.removed(g, node)
        elif kind == "view":
            g = self.graph(op[1])
            if len(self.views) >= 10:
                return
            o = outcome(lambda: g.real.view())
            if o[0] != "ok":
                raise Violation("unexpected-exception", f"view(): {self.err(o)}")
            v = self.new_view(g, o[1])
            self.hist.append(("view", g.id, (v.id,), ("ok",)))
            self.note("view", g.id, v.id)
        elif kind == "vcopy":
            u = self.view(op[1])
            if len(self.views) >= 10 or u.default or u.closed:
                return
            o = outcome(lambda: copy.copy(u.real) if len(op) > 2 and op[2] else u.real.copy())
            if o[0] != "ok":
                raise Violation("unexpected-exception", f"view copy: {self.err(o)}")
            v = self.new_view(u.g, o[1])
            v.yielded, v.done, v.outstanding = set(u.yielded), set(u.done), list(u.outstanding)
            self.hist.append(("vcopy", u.id, (v.id,), ("ok",)))
            self.note("vcopy", u.id, v.id)
            out.probes["view_copied_with_work_outstanding"] += bool(u.outstanding)
        elif kind == "gcopy":
            g = self.graph(op[1])
            if len(self.graphs) >= 4 or len(self.views) >= 10:
                return
            how = op[2] if len(op) > 2 else 0
            o = outcome(lambda: [g.real.copy, lambda: copy.copy(g.real), lambda: copy.deepcopy(g.real)][how]())
            if o[0] != "ok":
                raise Violation("unexpected-exception", f"graph copy: {self.err(o)}")
            h = self.new_graph(o[1])
            h.preds = {n: dict(p) for n, p in g.preds.items()}
            d, s = h.default, g.default
            d.yielded, d.done, d.outstanding = set(s.yielded), set(s.done), list(s.outstanding)
            self.hist.append(("gcopy", g.id, (h.id, d.id), ("ok",)))
            self.note("gcopy", g.id, h.id)
            out.probes["graph_copied_with_work_outstanding"] += bool(s.outstanding)
        elif kind == "thaw":
            # everything concerning this graph is stored, and later restored
            g = self.graph(op[1])
            views = [v for v in g.views if not v.default and not v.closed]
            o = outcome(lambda: copy.deepcopy((g.real, [v.real for v in views])))
            if o[0] != "ok":
                raise Violation("unexpected-exception", f"deep copy of a graph and its views: {self.err(o)}")
            g.real = o[1][0]
            for v, real in zip(views, o[1][1]):
                v.real = real
            self.note("thaw", g.id)
            out.faults["restored_from_copy"] += 1
        elif kind == "work":
            v = self.view(op[1])
            if v.closed:
                return
            got = self.do_ready(v, alias=op[3] if len(op) > 3 else 0)
            if got is None:
                return
            durs = op[2]
            # a deterministic order: the order of the palette
            for i, n in enumerate(sorted(got, key=repr)):
                d = durs[i % len(durs)] if durs else 1
                if d < 0:
                    out.faults["worker_crash"] += 1
                    continue
                self.n += 1
                heapq.heappush(self.agenda, (self.time + d, self.n, v.id, n))
        elif kind == "recover":
            # a supervisor reports everything handed out (crashed workers' work redone), in one call
            v = self.view(op[1])
            if v.closed or not v.outstanding:
                return
            nodes = list(v.outstanding)
            if op[2]:
                nodes.reverse()
            self.do_done(v, nodes[:op[3]] if op[3] else nodes)
        elif kind == "bool":
            v = self.view(op[1])
            if not v.closed:
                self.do_bool(v)
        elif kind == "reset":
            v = self.view(op[1])
            if v.closed:
                return
            r = self.rv(v)
            o = outcome(lambda: r.reset())
            self.hist.append(("reset", v.id, (), ("ok",) if o[0] == "ok" else ("raise", self.classify(o))))
            self.note("reset", v.id)
            if o[0] != "ok":
                raise Violation("unexpected-exception", f"reset: {self.err(o)}")
            out.probes["reset_with_work_outstanding"] += bool(v.outstanding)
            v.yielded, v.done, v.outstanding = set(), set(), []
        elif kind == "close":
            v = self.view(op[1])
            if v.default or v.closed:
                return
            o = outcome(lambda: v.real.close())
            if o[0] != "ok":
                raise Violation("unexpected-exception", f"close: {self.err(o)}")
            self.hist.append(("close", v.id, (), ("ok",)))
            self.note("close", v.id)
            v.closed = True
            v.g.views.remove(v)
            self.check_closed(v)
        elif kind == "closed":
            closed = [v for v in self.views if v.closed]
            if closed:
                self.check_closed(closed[op[1] % len(closed)])
        elif kind == "cycle":
            g = self.graph(op[1])
            o = outcome(lambda: g.real.cycle())
            self.hist.append(("cycle", g.id, (), ("ok", o[1] is not None) if o[0] == "ok" else ("raise", self.classify(o))))
            self.note("cycle", g.id, o[0] == "ok" and o[1] is not None)
            if o[0] != "ok":
                raise Violation("unexpected-exception", f"cycle(): {self.err(o)}")
            self.judge_cycle(g, o[1])
        elif kind == "icycle":
            # the query is interrupted at some line; what it answers afterwards is as if it had not been asked
            g = self.graph(op[1])
            i = Interrupter(op[2])
            def f():
                with i:
                    (g.real.check_for_cycles if op[3] else g.real.cycle)()
            try:
                o = outcome(f)
            except Interrupt:
                out.faults["interrupt"] += 1
                out.probes["query_interrupted"] += 1
            self.note("icycle", g.id, i.fired)
        elif kind == "prepare":
            g = self.graph(op[1])
            o = outcome(lambda: (g.real.prepare if op[2] else g.real.check_for_cycles)())
            c = self.classify(o)
            self.hist.append(("prepare", g.id, (), (c,)))
            self.note("prepare", g.id, c)
            cyc = g.cyclic()
            if c == "ok" and cyc:
                self.bad("C12", "cycle-missed", f"check for cycles found none in {g.preds}")
            elif c == "cycle":
                if not cyc:
                    self.bad("C12", "false-cycle", f"check for cycles raised {self.err(o)} for {g.preds}")
                elif len(o[1].args) > 1:
                    self.judge_cycle(g, o[1].args[1])
            elif c != "ok":
                raise Violation("unexpected-exception", f"check for cycles: {self.err(o)}")
        elif kind == "static":
            g = self.graph(op[1])
            limit = op[2]
            got = []
            def f():
                for n in g.real.static_order():
                    got.append(n)
                    if limit is not None and len(got) >= limit:
                        break
            o = outcome(f)
            c = self.classify(o)
            cyc = g.cyclic()
            self.hist.append(("static", g.id, (limit,), (c, frozenset(got) if limit is None else len(got))))
            self.note("static", g.id, c, len(got))
            if c == "cycle":
                if not cyc:
                    self.bad("C12", "false-cycle", f"static_order raised {self.err(o)} for {g.preds}")
            elif c != "ok":
                raise Violation("unexpected-exception", f"static_order: {self.err(o)}")
            else:
                if cyc and (limit is None or limit > 0):
                    self.bad("C12", "cycle-missed", f"static_order raised nothing for {g.preds}")
                if len(set(got)) != len(got):
                    self.bad("C09", "handed-out-twice", f"static_order yielded {got}")
                seen = set()
                for n in got:
                    if any(p not in seen for p in g.preds.get(n, ())):
                        self.bad("C09", "handed-out-early", f"static_order yielded {got} for { {n: list(p) for n, p in g.preds.items()} }")
                    seen.add(n)
                if limit is None and not cyc and set(got) != set(g.preds):
                    self.bad("C10", "stranded", f"static_order yielded {got} for {g.preds}")
        elif kind == "len":
            g = self.graph(op[1])
            o = outcome(lambda: len(g.real))
            self.hist.append(("len", g.id, (), o if o[0] == "ok" else ("raise", self.classify(o))))
            if o[0] != "ok" or o[1] != len(g.preds):
                self.bad("C13", "length", f"len is {self.err(o)}, the graph has {len(g.preds)} nodes")
                self.bad("C14", "length", f"len is {self.err(o)}, the graph has {len(g.preds)} nodes")
        elif kind == "show":
            self.do_print(op)
        elif kind == "baddone":
            self.bad_done(op)
        elif kind == "dupdone":
            v = self.view(op[1])
            if v.closed or not v.outstanding or self.conflict(v):
                return
            nodes = [v.outstanding[i % len(v.outstanding)] for i in op[2]]
            distinct = list(dict.fromkeys(nodes))
            out.faults["duplicate_completion"] += len(nodes) > len(distinct)
            self.do_done(v, distinct, raw=nodes)
            self.hist[-1] = ("dupdone",) + self.hist[-1][1:]
        elif kind == "badadd":
            g = self.graph(op[1])
            node, deps = self.node(op[2]), [self.node(d) for d in op[3]]
            exc = injected(ORDINARY[(op[2] * 7 + op[5] * 5 + len(op[3])) % len(ORDINARY)], "hash")
            args = [node] + deps
            present = args + list(g.preds)
            bads = [[], {}, set(), BadHash(exc), BadEq(present[op[5] % len(present)], exc)]
            b = bads[op[4] % 5]
            args.insert(op[5] % (len(args) + 1), b)
            o = outcome(lambda: g.real.add(*args))
            c = self.classify(o)
            out.faults["unusable_node"] += 1
            self.hist.append(("badadd", g.id, tuple(map(repr, args)), (c,)))
            self.note("badadd", g.id, list(map(repr, args)), c)
            if c == "ok":
                self.bad("C14", "bad-add-accepted", f"add{tuple(args)} raised nothing")
            elif c not in ("type", "injected"):
                self.bad("C14", "wrong-exception", f"add{tuple(args)} raised {self.err(o)}")
        elif kind == "badremove":
            g = self.graph(op[1])
            missing = [n for n in self.pal if n not in g.preds]
            if not missing:
                return
            node = missing[op[2] % len(missing)]
            o = outcome(lambda: g.real.remove(node))
            out.faults["remove_unknown"] += 1
            self.hist.append(("badremove", g.id, (node,), (self.classify(o),)))
            self.note("badremove", g.id, repr(node), self.classify(o))
            if self.classify(o) != "value":
                self.bad("C14", "bad-remove", f"remove({node!r}) of a node not in the graph: {self.err(o)}")
        else:
            raise HarnessError(kind)

    def removed(self, g, node):
        g.remove(node)
        for v in g.views:
            if node in v.yielded:
                self.out.probes["removed_while_handed_out"] += 1
            v.yielded.discard(node)
            v.done.discard(node)
            if node in v.outstanding:
                v.outstanding.remove(node)

    def bad_done(self, op):
        v = self.view(op[1])
        if v.closed or self.conflict(v):
            return
        good = [v.outstanding[i % len(v.outstanding)] for i in op[2]] if v.outstanding else []
        kind = op[3] % 3
        if kind == 0:
            pool = [n for n in self.pal if n not in v.g.preds] + ["unknown"]
        elif kind == 1:
            pool = self.waiting(v)
        else:
            pool = [n for n in v.done]
            pool.sort(key=repr)
        if not pool:
            return
        bad = pool[op[4] % len(pool)]
        args = list(good)
        args.insert(op[5] % (len(args) + 1), bad)
        self.out.faults[("unknown", "not_handed_out", "already_done")[kind] + "_completion"] += 1
        if good:
            self.out.probes["bad_completion_with_valid_ones"] += 1
        r = self.rv(v)
        o = outcome(lambda: r.done(*args))
        c = self.classify(o)
        self.hist.append(("baddone", v.id, tuple(args), (c,)))
        self.note("baddone", v.id, list(map(repr, args)), c)
        if c == "ok":
            self.bad("C14", "bad-done-accepted", f"done{tuple(args)} on view {v.id} was accepted: {self.show(v)}")
        elif c != "value":
            self.bad("C14", "wrong-exception", f"done{tuple(args)} on view {v.id}: {self.err(o)}")

    def do_print(self, op):
        "Printing changes nothing, whatever the output does."
        _, i, whole, fails = op
        if whole:
            real, closed = self.graph(i).real, False
        else:
            v = self.view(i)
            real, closed = v.real, v.closed
            if v.default:
                return
        n = [0]
        def sink(*args, **kw):
            for a in args:
                str(a)
            n[0] += 1
            if n[0] == fails:
                self.out.faults["output_failed"] += 1
                raise Injected("output")
        o = outcome(lambda: real.print(print=sink))
        r = outcome(lambda: repr(real))
        if r[0] != "ok":
            raise Violation("unexpected-exception", f"repr: {self.err(r)}")
        if closed:
            if self.classify(o) != "value":
                self.bad("C13", "closed-view-usable", f"print on a closed view: {self.err(o)}")
        elif o[0] != "ok" and not isinstance(o[1], Injected):
            raise Violation("unexpected-exception", f"print: {self.err(o)}")

    def check_closed(self, v):
        for name, fn in (("ready", lambda: v.real.ready()), ("done", lambda: v.real.done()), ("bool", lambda: bool(v.real)), ("reset", lambda: v.real.reset()),
                         ("close", lambda: v.real.close()), ("copy", lambda: v.real.copy()), ("copy.copy", lambda: copy.copy(v.real))):
            o = outcome(fn)
            self.out.stats["closed_use"] += 1
            if self.classify(o) != "value":
                self.bad("C13", "closed-view-usable", f"{name} on closed view {v.id}: {self.err(o)}")

    def judge_cycle(self, g, c):
        cyc = g.cyclic()
        if c is None:
            if cyc:
                self.bad("C12", "cycle-missed", f"cycle() found none in { {n: list(p) for n, p in g.preds.items()} }")
            return
        if not cyc:
            self.bad("C12", "false-cycle", f"cycle() returned {c} for { {n: list(p) for n, p in g.preds.items()} }")
            return
        self.out.probes["cycle_found"] += 1
        c = list(c)
        if not c or any(n not in g.preds for n in c):
            self.bad("C12", "not-a-cycle", f"cycle() returned {c} for {g.preds}")
            return
        if len(c) > 1 and c[0] == c[-1]:
            c = c[:-1]
        pairs = list(zip(c, c[1:] + c[:1]))
        fwd = all(a in g.preds[b] for a, b in pairs)
        rev = all(b in g.preds[a] for a, b in pairs)
        if not (fwd or rev) or len(set(c)) != len(c):
            self.bad("C12", "not-a-cycle", f"cycle() returned {c} for { {n: list(p) for n, p in g.preds.items()} }")

    # -- the end: faults stop, everything must finish ---------------------------
    def drain(self):
        for v in list(self.views):
            if v.closed:
                continue
            self.do_bool(v)
            if self.conflict(v) or v.g.cyclic():
                self.out.probes["drain_impossible"] += 1
                self.do_ready(v)
                continue
            rounds = 0
            while True:
                rounds += 1
                if rounds > 3 * len(v.g.preds) + 10:
                    self.bad("C10", "no-progress", f"view {v.id} does not finish: {self.show(v)}")
                    break
                if v.outstanding:
                    if not self.do_done(v, list(v.outstanding)):
                        break
                b = self.do_bool(v)
                if not b:
                    break
                got = self.do_ready(v)
                if got is None:
                    break
                if not got and not v.outstanding:
                    self.bad("C10", "stranded", f"view {v.id} is true, nothing is outstanding and nothing is ready: {self.show(v)}")
                    break
            left = [n for n in v.g.preds if n not in v.done]
            if left and not self.conflict(v):
                self.bad("C10", "stranded", f"view {v.id} finished without {left}: {self.show(v)}")
            self.out.probes["drained"] += 1

    def run(self):
        init = self.case["init"]
        if init is None:
            g = self.new_graph(self.mod.TopologicalSorter())
        else:
            m = {}
            for n, ds in init:
                m[self.node(n)] = [self.node(d) for d in ds]
            g = self.new_graph(self.mod.TopologicalSorter(m))
            for n, ds in m.items():
                g.add(n, ds)
                self.hist.append(("add", 0, (n, tuple(ds)), ("ok",)))
        for op in self.case["ops"]:
            self.pass_time()
            self.step(op)
        self.drain()


# ---------------------------------------------------------------------------
# C13: replay, for each view and graph, only what may affect it
# ---------------------------------------------------------------------------

def project_view(hist, vid, owner, created, graph_of):
    """
    The operations that may affect view vid, as (kind, args, outcome or None),
    to be run on the default view of a fresh graph.  outcome is given for the
    operations of the view itself.
    """
    def edits(gid, upto):
        # edits of the graph gid's lineage among hist[:upto], as [(position, op)]
        out = []
        src = graph_of[gid].get("copied")
        start = 0
        if src:
            pgid, pos = src
            out += edits(pgid, pos)
            start = pos
        for i in range(start, upto):
            h = hist[i]
            if h[1] == gid and h[0] in ("add", "remove"):
                out.append((i, (h[0], h[2], None)))
        return out

    def own(v, upto):
        # own operations of view v's lineage among hist[:upto]
        out = []
        how = created[v]
        if how is not None:
            kind, src, pos = how
            if kind == "copy":
                out += [(i, (k, a, None)) for i, (k, a, _) in own(src, pos)]
        for i in range(how[2] if how else 0, upto):
            h = hist[i]
            if h[0] in ("ready", "done", "bool", "reset", "dupdone") and h[1] == v:
                if h[0] == "reset":
                    out = []
                    continue
                out.append((i, ("done" if h[0] == "dupdone" else h[0], h[2], h[3])))
        return out

    gid = owner[vid]
    n = len(hist)
    ops = edits(gid, n) + own(vid, n)
    ops.sort(key=lambda x: x[0])
    return [o for _, o in ops], edits(gid, n)


def check_projection(run):
    mod = run.mod
    hist = run.hist
    owner = {v.id: v.g.id for v in run.views}
    created = {v.id: None for v in run.views}
    graph_of = {g.id: {} for g in run.graphs}
    for i, h in enumerate(hist):
        if h[0] == "view":
            created[h[2][0]] = ("new", None, i)
        elif h[0] == "vcopy":
            created[h[2][0]] = ("copy", h[1], i)
        elif h[0] == "gcopy":
            created[h[2][1]] = ("copy", run.graphs[h[1]].default.id, i)
            graph_of[h[2][0]]["copied"] = (h[1], i)

    def classify(o):
        return run.classify(o)

    for v in run.views:
        ops, _ = project_view(hist, v.id, owner, created, graph_of)
        g = mod.TopologicalSorter()
        for n, (kind, args, want) in enumerate(ops):
            if kind == "add":
                o = outcome(lambda: g.add(args[0], *args[1]))
                continue
            if kind == "remove":
                o = outcome(lambda: g.remove(args[0]))
                continue
            if kind == "ready":
                o = outcome(lambda: tuple(g.ready()))
                got = ("ok", frozenset(o[1]), len(o[1])) if o[0] == "ok" else ("raise", classify(o))
            elif kind == "done":
                o = outcome(lambda: g.done(*args))
                got = ("ok",) if o[0] == "ok" else ("raise", classify(o))
            elif kind == "bool":
                o = outcome(lambda: bool(g))
                got = ("ok", o[1]) if o[0] == "ok" else ("raise", classify(o))
            if want is not None and got != want:
                raise Violation("interference", f"view {v.id} ({'default view of graph %d' % v.g.id if v.default else created[v.id]}): {kind}{args} gave {want}, "
                                f"but {got} when only what concerns this view is executed: {ops[:n + 1]}")
    # graph-level queries
    for g in run.graphs:
        if not any(h[0] in ("cycle", "prepare", "static", "len") and h[1] == g.id for h in hist):
            continue
        real = mod.TopologicalSorter()
        chain = []
        gid, upto = g.id, len(hist)
        segs = []
        while True:
            src = graph_of[gid].get("copied")
            segs.append((gid, src[1] if src else 0, upto))
            if not src:
                break
            gid, upto = src
        for gid, a, b in reversed(segs):
            for i in range(a, b):
                h = hist[i]
                if h[1] != gid:
                    continue
                if h[0] == "add":
                    outcome(lambda: real.add(h[2][0], *h[2][1]))
                elif h[0] == "remove":
                    outcome(lambda: real.remove(h[2][0]))
                elif gid == g.id and h[0] == "cycle":
                    o = outcome(lambda: real.cycle())
                    got = ("ok", o[1] is not None) if o[0] == "ok" else ("raise", classify(o))
                    if got != h[3]:
                        raise Violation("interference", f"graph {g.id}: cycle() gave {h[3]}, but {got} when only what concerns this graph is executed")
                elif gid == g.id and h[0] == "prepare":
                    c = classify(outcome(lambda: real.check_for_cycles()))
                    if (c,) != h[3]:
                        raise Violation("interference", f"graph {g.id}: check for cycles gave {h[3]}, but {c} when only what concerns this graph is executed")
                elif gid == g.id and h[0] == "len":
                    if ("ok", len(real)) != h[3]:
                        raise Violation("interference", f"graph {g.id}: len gave {h[3]}, but {len(real)} when only what concerns this graph is executed")


# ---------------------------------------------------------------------------
# C14: the same history without the failed operations (and duplicates)
# ---------------------------------------------------------------------------

def check_without_failures(run):
    mod = run.mod
    graphs = [mod.TopologicalSorter()]
    views = {0: (graphs[0], True)}
    for v in run.views:
        if v.default and v.g.id == 0:
            views = {v.id: graphs[0]}
    for n, h in enumerate(run.hist):
        kind, tgt, args, want = h
        if kind in ("baddone", "badadd", "badremove"):
            continue
        if kind == "add":
            outcome(lambda: graphs[tgt].add(args[0], *args[1])); continue
        if kind == "remove":
            outcome(lambda: graphs[tgt].remove(args[0])); continue
        if kind == "view":
            views[args[0]] = graphs[tgt].view(); continue
        if kind == "vcopy":
            views[args[0]] = views[tgt].copy(); continue
        if kind == "gcopy":
            g = graphs[tgt].copy()
            graphs.append(g)
            views[args[1]] = g; continue
        if kind == "close":
            views[tgt].close(); continue
        if kind == "reset":
            views[tgt].reset(); continue
        if kind == "ready":
            o = outcome(lambda: tuple(views[tgt].ready()))
            got = ("ok", frozenset(o[1]), len(o[1])) if o[0] == "ok" else ("raise", run.classify(o))
        elif kind in ("done", "dupdone"):
            o = outcome(lambda: views[tgt].done(*dict.fromkeys(args)))
            got = ("ok",) if o[0] == "ok" else ("raise", run.classify(o))
        elif kind == "bool":
            o = outcome(lambda: bool(views[tgt]))
            got = ("ok", o[1]) if o[0] == "ok" else ("raise", run.classify(o))
        elif kind == "len":
            got = ("ok", len(graphs[tgt]))
        elif kind == "cycle":
            o = outcome(lambda: graphs[tgt].cycle())
            got = ("ok", o[1] is not None) if o[0] == "ok" else ("raise", run.classify(o))
        elif kind == "prepare":
            got = (run.classify(outcome(lambda: graphs[tgt].check_for_cycles())),)
        else:
            continue
        if got != want:
            raise Violation("failed-operation-left-traces", f"{kind} on {tgt} with {args} gave {want}, but {got} in the same history without the failed operations and duplicates")


class _Graph(runner.Check):
    lists = (("ops",), ("init",))
    real = ("big.graph.TopologicalSorter and its views",)
    stubs = ("the workers, their durations and crashes, virtual time",)
    time_unit = "simulated time units"
    weights = {}
    probes_needed = ()
    runs = {"quick": 72000, "thorough": 1200000}
    base = {"add": 30, "remove": 6, "view": 4, "vcopy": 3, "gcopy": 2, "work": 30, "recover": 10, "bool": 3, "reset": 2, "close": 1.5, "closed": 1,
            "cycle": 2, "prepare": 1, "static": 1.5, "len": 1, "baddone": 2, "dupdone": 2, "badadd": 1, "badremove": .5, "show": .5, "thaw": .7}
    rule = ("one case = a random history (6-60 steps) of edits, worker polls, completions in random order of finishing, worker crashes, recoveries, views, copies, resets, closes, "
            "queries and invalid calls on up to 4 graphs and 10 views, then draining every view; non-trivial = at least one node handed out and one edit after that; distinct by event log")

    def gen(self, rng, index, tier):
        w = dict(self.base)
        w.update(self.weights)
        kinds = [k for k in w if rng.random() < .85 or k in ("add", "work") or k in self.weights]
        ws = [w[k] * rng.choice([.5, 1, 1, 2]) for k in kinds]
        nn = rng.choice([3, 4, 5, 8, 12])
        acyc = rng.random() < (.75 if self.id != "C12" else .35)
        def edge():
            n = rng.randrange(nn)
            k = rng.choice([0, 1, 1, 2, 3])
            if acyc:
                ds = [rng.randrange(n) for _ in range(k)] if n else []
            else:
                ds = [rng.randrange(nn) for _ in range(k)]
            return n, ds
        init = None
        if rng.random() < .5:
            seen = {}
            for _ in range(rng.randint(1, 6)):
                n, ds = edge()
                seen[n] = ds
            init = [[n, ds] for n, ds in seen.items()]
        wide = rng.random() < (.05 if self.id == "C12" else .02)
        if wide:
            # a large graph in layers, every node depending on the whole layer before it
            acyc = rng.random() < (.6 if self.id != "C12" else .25)
            width = rng.choice([1, 2, 2, 3])
            nn = width * rng.randint(8, 60 // width)
            if rng.random() < .1:
                width = rng.choice([1, 1, 2, 40, 70])
                nn = rng.choice([70, 140, 270])
            at = list(range(nn))
            if rng.random() < .5:
                at.reverse()
            layers = [at[i:i + width] for i in range(0, nn, width)]
            acyc = acyc or len(layers) < 3
            init = [[n, layers[i - 1] if i else []] for i, l in enumerate(layers) for n in l]
            if not acyc:
                # one edge back
                i = rng.choice([1, 1, 2, rng.randrange(1, len(layers))])
                j = rng.randrange(max(0, i - 2), i)
                init.append([layers[j][0], [layers[i][0]] + (layers[j - 1] if j else [])])
            elif rng.random() < .5:
                rng.shuffle(init)
            init = [[n, ds] for n, ds in {n: ds for n, ds in init}.items()]
        ops = []
        for _ in range(rng.choice([6, 12, 25, 60])):
            k = rng.choices(kinds, ws)[0]
            if k == "add":
                n, ds = edge()
                ops.append(["add", rng.randrange(4), n, ds])
            elif k == "remove":
                ops.append(["remove", rng.randrange(4), rng.randrange(12)])
            elif k in ("view", "cycle", "len", "thaw"):
                ops.append([k, rng.randrange(4)])
            elif k == "gcopy":
                ops.append([k, rng.randrange(4), rng.choice([0, 0, 1, 2])])
            elif k == "vcopy":
                ops.append([k, rng.randrange(10), rng.choice([0, 0, 1])])
            elif k == "icycle":
                ops.append([k, rng.randrange(4), rng.choice([2, 4, 6, 10, 20, 40, 80]) + rng.randrange(20), rng.randrange(2)])
            elif k == "prepare":
                ops.append([k, rng.randrange(4), rng.randrange(2)])
            elif k == "show":
                ops.append([k, rng.randrange(10), rng.randrange(2), rng.choice([0, 0, 1, 2, 3, 5, 8])])
            elif k == "static":
                ops.append([k, rng.randrange(4), rng.choice([None, None, 0, 1, 2, 3])])
            elif k == "work":
                ops.append([k, rng.randrange(10), [rng.choice([-1, 1, 1, 2, 3, 6, 15]) for _ in range(rng.randint(1, 4))], rng.randrange(2)])
            elif k == "recover":
                ops.append([k, rng.randrange(10), rng.randrange(2), rng.choice([0, 0, 1, 2])])
            elif k in ("bool", "reset", "close", "closed"):
                ops.append([k, rng.randrange(10)])
            elif k == "baddone":
                ops.append([k, rng.randrange(10), [rng.randrange(6) for _ in range(rng.choice([0, 1, 1, 2, 3]))], rng.randrange(3), rng.randrange(8), rng.randrange(4)])
            elif k == "dupdone":
                i = [rng.randrange(4) for _ in range(rng.randint(1, 3))]
                ops.append([k, rng.randrange(10), i + [rng.choice(i)] + ([i[0]] if rng.random() < .3 else [])])
            elif k == "badadd":
                n, ds = edge()
                ops.append([k, rng.randrange(4), n, ds, rng.randrange(5), rng.randrange(12)])
            elif k == "badremove":
                ops.append([k, rng.randrange(4), rng.randrange(12)])
        # concentrate on few graphs and views most of the time
        if rng.random() < .6:
            for op in ops:
                if rng.random() < .7 and op[0] not in ("view", "vcopy", "gcopy"):
                    op[1] = rng.choice([0, 0, 1])
        return {"palette": 3 if wide else rng.choice([0, 0, 1, 2, 2, 4, 5]), "init": init, "ops": ops}

    def post(self, run):
        pass

    def run(self, case):
        out = runner.Outcome()
        run = GraphRun(case, out, self.id)
        try:
            run.run()
            self.post(run)
        except Violation as v:
            out.violation = (v.kind, v.detail)
        out.switches = []
        out.sim_time = run.time
        out.steps = len(out.log)
        out.signature = runner.sig(out.log)
        kinds = [h[0] for h in run.hist]
        out.nontrivial = "ready" in kinds and any(k in ("add", "remove") for k in kinds[kinds.index("ready"):])
        return out


class C09(_Graph):
    id = "C09"
    weights = {"dupdone": 4, "static": 3}
    required_probes = ("removed_while_handed_out", "reset_with_work_outstanding")


class C10(_Graph):
    id = "C10"
    weights = {"recover": 15}
    required_probes = ("drained", "removed_while_handed_out")


class C11(_Graph):
    id = "C11"
    weights = {"bool": 12, "remove": 12, "vcopy": 5, "reset": 3}
    required_probes = ("incoherent", "contradiction_named")


class C12(_Graph):
    id = "C12"
    weights = {"cycle": 12, "icycle": 4, "prepare": 4, "gcopy": 4, "remove": 12, "static": 3}
    required_probes = ("cycle_error", "cycle_found", "query_interrupted")


class C13(_Graph):
    id = "C13"
    weights = {"view": 8, "vcopy": 8, "gcopy": 6, "reset": 5, "close": 4, "closed": 3, "bool": 6, "cycle": 4, "len": 2}
    required_probes = ("view_copied_with_work_outstanding", "graph_copied_with_work_outstanding", "reset_with_work_outstanding")

    def post(self, run):
        check_projection(run)


class C14(_Graph):
    id = "C14"
    weights = {"baddone": 14, "dupdone": 10, "badadd": 6, "badremove": 3, "bool": 5, "recover": 12, "len": 2}
    required_probes = ("bad_completion_with_valid_ones",)

    def post(self, run):
        check_without_failures(run)
