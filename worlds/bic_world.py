"""
C31: hierarchies of bound and unbound inner classes whose first accesses race
with one another in several threads.
"""
import copy
import gc

from sim import kernel as K, runner, seams
from sim.kernel import Violation, HarnessError
from worlds.sched_threads import gen_sched


def everything(self, name):
    if name.startswith("__"):
        raise AttributeError(name)
    return f"attribute {name}"


def name_of(case, i):
    "An inner class of the subclass may override one of the outer class."
    return f"I{case['classes'][i].get('over', i)}"


class Awkward:
    "Can't be asked whether it is true, or equal to anything."
    def __bool__(self):
        raise ValueError("ambiguous")

    def __eq__(self, other):
        raise ValueError("ambiguous")

    __hash__ = None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class Empty(type):
    "Classes that are false."
    def __len__(cls):
        return 0


HIDES = [None, 5, type("Other", (object,), {}), object, Awkward()]


def new(case, Outer, Sub, kind):
    "An outer object: of the outer class, of its subclass, or of the outer class with an attribute of its own that hides an inner class."
    o = (Sub if kind == 1 else Outer)()
    if case.get("object") is not None:
        # (every class has a base of this name)
        o.object = HIDES[case["object"]]
    if kind == 2:
        setattr(o, f"I{case['hide'][0]}", HIDES[case["hide"][1]])
    return o


def hidden(case, kind):
    "The inner class that outer objects of this kind hide."
    h = case.get("hide")
    return h[0] if h and (kind == 2 or kind == 1 and h[2]) else None


def inner(case, Sub, o, i):
    "Class i accessed through o, as a method could."
    over = {c["over"] for c in case["classes"] if "over" in c}
    return getattr(super(Sub, o) if i in over and isinstance(o, Sub) else o, name_of(case, i))


def build(mod, case):
    "The outer classes and the undecorated inner classes."
    raw = []
    plains = {}
    spaces = [{}, {}]
    for i, c in enumerate(case["classes"]):
        bases = tuple(raw[b] for b in c["bases"])
        # an undecorated base, which may be named like an inner class
        if c["plain"] is not None:
            key = tuple(c["plain"])
            if key not in plains:
                plains[key] = type(f"I{key[0]}", (object,), {"__module__": "elsewhere", "which": key})
            bases = bases + (plains[key],)
        ns = {"__module__": "simulated", "__doc__": f"class {i}"}

        def make(i=i, bound=c["bound"]):
            cell = []
            if bound:
                def __init__(self, outer, *args):
                    self.seen = getattr(self, "seen", []) + [(i, outer)]
                    if args:
                        self.args = args
                    super(cell[0], self).__init__()
            else:
                def __init__(self, *args):
                    self.seen = getattr(self, "seen", []) + [(i, None)]
                    if args:
                        self.args = args
                    super(cell[0], self).__init__()
            return cell, __init__
        cell, init = make()
        ns["__init__"] = init
        cls = (Empty if case.get("empty") else type)(name_of(case, i), bases or (object,), ns)
        cell.append(cls)
        raw.append(cls)
        deco = mod.BoundInnerClass if c["bound"] else mod.UnboundInnerClass
        spaces[c["where"]][name_of(case, i)] = deco(cls)
        if i in case.get("alias", {}):
            # the same class decorated once more, under a name of its own
            spaces[c["where"]][f"A{i}"] = (mod.BoundInnerClass if case["alias"][i] else mod.UnboundInnerClass)(cls)
    extra = {"plain": {}, "falsy": {"__len__": lambda self: 0}, "everything": {"__getattr__": everything}, "equal": {"__eq__": lambda self, other: True, "__hash__": None},
             "same": {"__eq__": lambda self, other: isinstance(other, Outer), "__hash__": lambda self: 1}}[case["outer"]]
    Outer = type("Outer", (object,), dict(spaces[0], **extra))
    h = case.get("hide")
    if h and h[2]:
        spaces[1][f"I{h[0]}"] = HIDES[h[1]]
    Sub = type("SubOuter", (Outer,), spaces[1])
    return Outer, Sub, raw


def usable(case):
    """
    Indices of inner classes that can be made and instantiated on an outer object when nothing else goes on.
    (What is derived from a class that the outer object hides isn't bound to its bound version.)
    """
    ok = {}
    for sub in (0, 1, 2) if case.get("hide") else (0, 1):
        # (each kind of outer object in a world of its own)
        Outer, Sub, raw = build(seams.fresh("boundinnerclass"), case)
        good = []
        for i, c in enumerate(case["classes"]):
            h = hidden(case, sub)
            if c["where"] and sub != 1 or h is not None and issubclass(raw[i], raw[h]):
                continue
            o = new(case, Outer, Sub, sub)
            try:
                inner(case, Sub, o, i)()
                good.append(i)
            except TypeError:
                pass
            except Exception as e:
                raise Violation("unexpected-exception", f"{name_of(case, i)} raised {type(e).__name__}: {e}")
        ok[sub] = good
    return ok


class C31(runner.Check):
    id = "C31"
    lists = (("threads",), ("threads", "*"), ("outers",))
    real = ("big.boundinnerclass",)
    stubs = ("thread scheduler",)
    runs = {"quick": 36000, "thorough": 700000}
    time_unit = "operations"
    rule = ("one case = a hierarchy of 1-6 bound and unbound inner classes with single and multiple inheritance, in an outer class and its subclass, some hidden by attributes of the subclass or of one outer object, 1-3 outer objects, 1-4 threads with up to 8 operations each "
            "(access, instantiate, compare subclass relations, replace an outer object by a new one or a copy), preempted inside the library; non-trivial = more than one operation; distinct by history")
    assumptions = ("every subclass of a decorated inner class is decorated, and an inner class that overrides another of the same name is not related to it by inheritance", "an outer object is kept alive while its bound classes are in use",
                   "where an inner class is hidden, nothing is said of it and of what is derived from it")
    required_probes = ("first_access_raced", "subclass_relation", "outer_replaced", "outer_copied", "overridden_class", "base_hidden", "decorated_twice")

    def gen(self, rng, index, tier):
        n = rng.choice([1, 2, 2, 3, 4, 6])
        classes = []
        for i in range(n):
            where = int(rng.random() < .25)
            cand = [j for j in range(i) if classes[j]["where"] <= where]
            bases = []
            if cand and rng.random() < .75:
                bases = sorted(rng.sample(cand, min(len(cand), rng.choice([1, 1, 1, 2, 3]))), reverse=True)
                if rng.random() < .3:
                    rng.shuffle(bases)
            plain = [rng.randrange(i + 1), rng.randrange(2)] if rng.random() < .2 else None
            classes.append({"bound": int(rng.random() < .8), "bases": bases, "where": where, "plain": plain})
        alone = [i for i in range(n) if not classes[i]["where"] and not any(i in c["bases"] or c["plain"] and c["plain"][0] == i for c in classes)]
        if alone and rng.random() < .25:
            # the subclass overrides an inner class that nothing is derived from
            classes.append({"bound": int(rng.random() < .8), "bases": [], "where": 1, "plain": None, "over": rng.choice(alone)})
            n += 1
        kinds = [0, 1]
        hide = None
        bases = [i for i in range(n) if not classes[i]["where"] and any(i in c["bases"] for c in classes) and not any(c.get("over") == i or c["plain"] and c["plain"][0] == i for c in classes)]
        if bases and rng.random() < .3:
            # some outer objects hide an inner class that others are derived from
            hide = [rng.choice(bases), rng.randrange(len(HIDES)), rng.randrange(2)]
            kinds = [0, 1, 2]
        alias = []
        if rng.random() < .2:
            alias = [[i, int(rng.random() < (.3 if c["bound"] else .7))] for i, c in enumerate(classes)
                     if not c["where"] and not c["bases"] and not c["plain"] and "over" not in c and not (hide and hide[0] == i) and rng.random() < .7]
        outers = [rng.choice(kinds) for _ in range(rng.choice([1, 1, 2, 3]))]
        if hide and rng.random() < .6:
            outers = [rng.choice([0, 1]), rng.choice([1, 2])] + outers[:1]
            rng.shuffle(outers)
        focus = rng.randrange(n) if rng.random() < .5 else None
        threads = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 5, 8])):
                r = rng.random()
                c = focus if focus is not None and rng.random() < .7 else rng.randrange(n)
                o = rng.randrange(len(outers))
                if alias and rng.random() < .25:
                    ops.append(["alias", o, rng.choice(alias)[0]])
                elif r < .45:
                    ops.append(["access", o, c])
                elif r < .75:
                    ops.append(["make", o, c])
                elif r < .93:
                    ops.append(["sub", o, c, rng.randrange(n)])
                elif r < .965:
                    ops.append(["replace", o])
                else:
                    ops.append(["copy", o, rng.randrange(2)])
            threads.append(ops)
        if rng.random() < .008:
            # many outer objects, or many uses of few
            k = rng.choice([20, 40, 70, 140, 270])
            if rng.random() < .7:
                outers = [rng.choice(kinds) for _ in range(k)]
            c = [rng.randrange(n) for _ in range(2)]
            threads = [[[rng.choice(["access", "make"]), i % len(outers), c[0]] for i in range(k)] + [["access", i % len(outers), rng.choice(c)] for i in range(k)]]
            if rng.random() < .3:
                threads.append([["make", 0, c[1]]])
        return {"classes": classes, "alias": alias, "hide": hide, "object": rng.randrange(len(HIDES)) if rng.random() < .1 else None, "empty": int(rng.random() < .1), "outer": rng.choice(["plain", "plain", "plain", "falsy", "equal", "same", "everything"]), "outers": outers, "threads": threads, "sched": gen_sched(rng, 200)}

    def run(self, case):
        out = runner.Outcome()
        case = dict(case, alias=dict(case.get("alias", ())))
        try:
            good = self.guard(case)
        except Violation as v:
            out.violation = (v.kind, v.detail)
            out.switches = []
            out.signature = runner.sig((case["classes"], case["outer"]))
            return out
        if good is None:
            # these classes cannot be combined
            case = dict(case, classes=[dict(c, bases=[], plain=None) for c in case["classes"]])
            good = usable(case)
        k = K.Kernel(case["sched"], step_cap=60_000 + 1000 * sum(map(len, case["threads"])), code_prefixes=seams.CODE_PREFIXES)
        try:
            mod = seams.fresh("boundinnerclass")
            Outer, Sub, raw = build(mod, case)
            outers = [[new(case, Outer, Sub, s), s, 0] for s in case["outers"]]
            everyone = list(outers)
            known = {}               # id of outer cell, class -> bound class
            accessing = {}
            aliases = {}

            def access(cell, c):
                key = (id(cell), c)
                if key not in known:
                    if accessing.get(key):
                        out.probes["first_access_raced"] += 1
                    accessing[key] = accessing.get(key, 0) + 1
                cls = inner(case, Sub, cell[0], c)
                if key in known:
                    if known[key] is not cls:
                        raise Violation("unstable", f"I{c} of one outer object is now another class")
                else:
                    known[key] = cls
                    for (oid, i), other in known.items():
                        if other is cls and oid != id(cell):
                            raise Violation("shared", f"I{c} is the same class for two outer objects")
                        if other is cls and i != c:
                            raise Violation("wrong-class", f"I{c} and I{i} are the same class")
                if not isinstance(cls, type) or not issubclass(cls, raw[c]) or cls is raw[c]:
                    raise Violation("wrong-class", f"I{c} gave {cls!r}")
                if cls.__name__ != name_of(case, c):
                    raise Violation("wrong-class", f"I{c} is named {cls.__name__}")
                return cls

            def body(me, ops):
                for op in ops:
                    cell = outers[op[1]]
                    ok = good[cell[1]]
                    out.stats[op[0]] += 1
                    try:
                        if op[0] == "access" and op[2] in ok:
                            access(cell, op[2])
                        elif op[0] == "access" and hidden(case, cell[1]) is not None:
                            # a class that can't be used there, because what it is derived from is hidden
                            try:
                                inner(case, Sub, cell[0], op[2])
                                out.probes["base_hidden"] += 1
                            except (TypeError, AttributeError):
                                pass
                        elif op[0] == "make" and op[2] in ok:
                            cls = access(cell, op[2])
                            out.probes["overridden_class"] += "over" in case["classes"][op[2]]
                            x = cls(1, 2)
                            self.check_instance(x, cell[0], op[2], raw, case, cls)
                        elif op[0] == "alias" and op[2] in case["alias"]:
                            i, bound = op[2], case["alias"][op[2]]
                            cls = getattr(cell[0], f"A{i}")
                            if not isinstance(cls, type) or not issubclass(cls, raw[i]) or cls is raw[i]:
                                raise Violation("wrong-class", f"A{i} gave {cls!r}")
                            if aliases.setdefault((id(cell), i), cls) is not cls:
                                raise Violation("unstable", f"A{i} of one outer object is now another class")
                            # the initialiser of a class unbound under its other name only wants to be passed something as the outer object
                            wants = case["classes"][i]["bound"]
                            x = cls(*(["somebody"] if wants and not bound else []))
                            first = x.seen[0][1] if wants else (x.args[0] if getattr(x, "args", ()) else None)
                            if first is not (cell[0] if bound else "somebody" if wants else None):
                                raise Violation("wrong-outer", f"A{i}, the class of I{i} ({'' if wants else 'un'}bound) decorated as {'' if bound else 'un'}bound, passed {first!r} to its initialiser")
                            out.probes["decorated_twice"] += bound != wants
                        elif op[0] == "sub" and op[2] in ok and op[3] in ok:
                            a, b = access(cell, op[2]), access(cell, op[3])
                            want = issubclass(raw[op[2]], raw[op[3]])
                            if issubclass(a, b) != want:
                                raise Violation("wrong-relation", f"I{op[2]} of an outer object is {'not ' if want else ''}a subclass of its I{op[3]}")
                            if op[2] != op[3]:
                                out.probes["subclass_relation"] += want
                        elif op[0] == "replace":
                            other = [new(case, Outer, Sub, cell[1]), cell[1], 0]
                            everyone.append(other)
                            outers[op[1]] = other
                            out.probes["outer_replaced"] += 1
                        elif op[0] == "copy":
                            # the copy is another outer object, the one it was made from lives on
                            other = [(copy.deepcopy if op[2] else copy.copy)(cell[0]), cell[1], 0]
                            everyone.append(other)
                            outers[op[1]] = other
                            out.probes["outer_copied"] += 1
                    except (Violation, HarnessError):
                        raise
                    except Exception as e:
                        raise Violation("unexpected-exception", f"{op}: {type(e).__name__}: {e}")
                    k.note(me, *op)
                    k.point()

            for i, ops in enumerate(case["threads"]):
                k.spawn(f"t{i}", lambda i=i, ops=ops: body(i, ops))
            k.run()
            if k.violation:
                raise Violation(*k.violation)
            # afterwards, with nothing else going on
            for cell in everyone:
                ok = good[cell[1]]
                try:
                    bound = {c: access(cell, c) for c in ok}
                except (TypeError, AttributeError) as e:
                    raise Violation("unexpected-exception", f"accessing an inner class raised {type(e).__name__}: {e}")
                for a in ok:
                    for p in {b for c in raw for b in c.__mro__} - {object}:
                        if issubclass(bound[a], p) != issubclass(raw[a], p):
                            raise Violation("wrong-relation", f"I{a} of an outer object is {'not ' if issubclass(raw[a], p) else ''}a subclass of {p!r}")
                    if getattr([Outer, Sub][case["classes"][a]["where"]], name_of(case, a)) is not raw[a]:
                        raise Violation("wrong-class", f"I{a} accessed through the outer class is not the class that was decorated")
                    try:
                        x = bound[a]()
                    except Exception as e:
                        raise Violation("unexpected-exception", f"I{a}() raised {type(e).__name__}: {e}")
                    self.check_instance(x, cell[0], a, raw, case, bound[a])
                    for b in ok:
                        if issubclass(bound[a], bound[b]) != issubclass(raw[a], raw[b]):
                            raise Violation("wrong-relation", f"I{a} and I{b} of an outer object lost their subclass relation")
        except Violation as v:
            out.violation = (v.kind, v.detail)
        out.switches = k.switches
        out.log = k.log
        out.steps = k.step
        out.sim_time = sum(out.stats.values())
        out.faults["preemption"] += len(k.switches)
        out.nontrivial = out.sim_time > 1
        out.signature = runner.sig((case["classes"], case["outer"], [e[1:2] + e[3:] for e in k.log], k.switches))
        return out

    def guard(self, case):
        try:
            return usable(case)
        except TypeError:
            return None

    def check_instance(self, x, outer, c, raw, case, cls):
        if type(x) is not cls or not isinstance(x, raw[c]):
            raise Violation("wrong-class", f"an instance of I{c} is a {type(x)!r}")
        seen = dict(x.seen)
        if len(seen) != len(x.seen):
            raise Violation("initialised-twice", f"I{c}() ran an initialiser twice: {[i for i, _ in x.seen]}")
        for i, o in x.seen:
            if case["classes"][i]["bound"] and o is not outer:
                raise Violation("wrong-outer", f"I{c}() passed another outer object to the initialiser of I{i}")
        if c not in seen:
            raise Violation("not-initialised", f"I{c}() did not run its initialiser")
