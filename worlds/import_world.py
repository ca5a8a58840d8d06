"""
C34: the library's modules imported in every order and form, by a process that
is interrupted in the middle of an import or cannot read a file, with and
without the optional packages; then compared with an undisturbed import.
"""
import builtins
import functools
import importlib
import json
import sys
import types

from sim import runner, seams
from sim.kernel import Violation, Injected

PUBLIC = ["boundinnerclass", "builtin", "file", "graph", "heap", "itertools", "log", "scheduler", "state", "text", "time", "version"]
ALL = PUBLIC + ["deprecated", "metadata", "all"]
OPTIONAL = ("regex", "dateutil", "dateutil.parser")


class Interrupt(BaseException):
    pass


def stub_regex(kind):
    "Stands in for the regex package."
    import re
    m = types.ModuleType("regex")
    class Pattern:
        "a compiled pattern of the other package"
        def __init__(self, p):
            self.p = re.compile(p)
        def __getattr__(self, n):
            return getattr(self.p, n)
    m.Pattern = Pattern
    m.compile = Pattern
    return {"regex": m}


def stub_dateutil(kind):
    "Stands in for python-dateutil."
    import datetime
    m = types.ModuleType("dateutil")
    m.__path__ = []
    p = types.ModuleType("dateutil.parser")
    p.parse = lambda s: datetime.datetime.fromisoformat(s.replace("Z", "+00:00"))
    m.parser = p
    return {"dateutil": m, "dateutil.parser": p}


class World:
    "A process's import system: what is there to import, and when importing goes wrong."
    def __init__(self, config):
        self.config = config
        self.fault = None
        self.fired = 0
        self.count = 0

    def __enter__(self):
        self.saved = {}
        for n in list(sys.modules):
            if n == "big" or n.startswith("big."):
                del sys.modules[n]
        for n in OPTIONAL:
            self.saved[n] = sys.modules.pop(n, None)
        if self.config["regex"] == "there":
            sys.modules.update(stub_regex(1))
        if self.config["dateutil"] == "there":
            sys.modules.update(stub_dateutil(1))
        self.real = builtins.__import__
        builtins.__import__ = self.do_import
        seams._swap = {}
        if seams._finder not in sys.meta_path:
            sys.meta_path.insert(0, seams._finder)
        self.real_exec = seams._Loader.exec_module
        world = self
        def exec_module(loader, module):
            world.event("read", OSError(5, "simulated read error", loader.path))
            world.real_exec(loader, module)
        seams._Loader.exec_module = exec_module
        return self

    def __exit__(self, *args):
        seams._Loader.exec_module = self.real_exec
        builtins.__import__ = self.real
        for n in list(sys.modules):
            if n == "big" or n.startswith("big.") or n in OPTIONAL:
                del sys.modules[n]
        for n, m in self.saved.items():
            if m is not None:
                sys.modules[n] = m

    def event(self, kind, exc):
        if self.fault and self.fault[0] == kind:
            self.count += 1
            if self.count == self.fault[1]:
                self.fired += 1
                raise exc

    def do_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        ours = globals is not None and str(globals.get("__name__", "")).split(".")[0] == "big"
        if ours:
            self.event("nested", Interrupt())
            top = name.split(".")[0]
            if not level and top in ("regex", "dateutil") and self.config[top] != "there":
                if self.config[top] == "broken":
                    raise ImportError(f"lib{top}.so: cannot open shared object file: simulated")
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return self.real(name, globals, locals, fromlist, level)

    def attempt(self, name, form, fault):
        "One import, as a program would write it.  Returns what it raised."
        self.fault, self.count = fault, 0
        space = {"__name__": "program"}
        code = {"module": f"import big.{name}", "from": f"from big import {name}", "star": f"from big.{name} import *", "name": f"import importlib; importlib.import_module('big.{name}')", "package": "import big"}[form]
        trace = sys.gettrace()
        if fault and fault[0] == "line":
            sys.settrace(self.tracer)
        try:
            exec(code, space)
        except (Interrupt, Exception) as e:
            return e, space
        finally:
            sys.settrace(trace)
            self.fault = None
        return None, space

    def tracer(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(seams.BIG) else None

    def local(self, frame, event, arg):
        if event == "line":
            self.event("line", Interrupt())
        return self.local


def describe(o):
    "What a public object is, apart from its address."
    if isinstance(o, type):
        return ["class", o.__module__, o.__qualname__, sorted(k for k in vars(o)), [f"{b.__module__}.{b.__qualname__}" for b in o.__mro__]]
    if isinstance(o, types.FunctionType):
        return ["function", o.__module__, o.__qualname__]
    if isinstance(o, (str, bytes, int, float, bool)) or o is None:
        return [type(o).__name__, repr(o)]
    if isinstance(o, (tuple, list)):
        return [type(o).__name__] + [describe(i) for i in o]
    if isinstance(o, dict):
        return ["dict"] + [[describe(k), describe(v)] for k, v in o.items()]
    return ["object", type(o).__module__, type(o).__qualname__]


def tell(f):
    try:
        return repr(f())
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def behave(m, config):
    "A few uses of every module."
    import datetime
    import re
    out = {}
    t = m["text"]
    if config["regex"] == "there":
        pattern = sys.modules["regex"].compile("b+")
        out["regex pattern"] = tell(lambda: [str(i) for i in t.re_partition("abbc", pattern)[::2]])
    out["re pattern"] = tell(lambda: [str(i) for i in t.re_partition("abbc", re.compile("b+"))[::2]])
    out["multisplit"] = tell(lambda: list(t.multisplit("a  b,c", (" ", ","), keep=True)))
    out["multisplit bytes"] = tell(lambda: list(t.multisplit(b"a b\nc")))
    out["quotes"] = tell(lambda: list(t.split_quoted_strings("a 'b c' d")))
    out["delimiters"] = tell(lambda: [tuple(i) for i in t.split_delimiters("a(b[c])")])
    out["lines"] = tell(lambda: [l for i, l in t.lines_strip_line_comments(t.lines_rstrip(t.lines("a # b\n c \n")), "#")])
    out["wrap"] = tell(lambda: t.wrap_words("a b c d e f".split(), 4))
    out["title"] = tell(lambda: t.gently_title("peter o'toole's \"thing\""))
    out["words"] = tell(lambda: t.int_to_words(1234))
    out["reversed"] = tell(lambda: [i.group() for i in t.reversed_re_finditer("a.", "abacad")])
    out["merge"] = tell(lambda: t.merge_columns(("a\nb", 2, 5), ("c", 2, 5)))
    out["version"] = tell(lambda: sorted([m["version"].Version("1.0rc1"), m["version"].Version("1.0"), m["version"].Version("0.9")]))
    out["metadata"] = tell(lambda: m["metadata"].version)
    out["heap"] = tell(lambda: list(m["heap"].Heap([3, 1, 2])))
    out["pushback"] = tell(lambda: list(m["itertools"].PushbackIterator([1, 2])))
    out["graph"] = tell(lambda: list(m["graph"].TopologicalSorter({"a": ["b"]}).static_order()))
    out["cycle"] = tell(lambda: issubclass(m["graph"].CycleError, ValueError))
    out["number"] = tell(lambda: m["builtin"].get_int_or_float("3.0"))
    out["file"] = tell(lambda: m["file"].translate_filename_to_exfat("a: b"))
    out["time"] = tell(lambda: m["time"].timestamp_3339Z(1_000_000_000.25))
    if config["dateutil"] == "there":
        out["parse"] = tell(lambda: m["time"].parse_timestamp_3339Z("2023-01-02T03:04:05Z"))
    def clock():
        return 5
    def log():
        l = m["log"].Log(clock)
        l("x")
        return list(l)
    out["log"] = tell(log)
    def sched():
        s = m["scheduler"].Scheduler()
        s.schedule("o", -5)
        return next(iter(s))
    out["scheduler"] = tell(sched)
    def state():
        S = m["state"]
        class A(S.State):
            def __init__(self, sm):
                self.sm = sm
            def on_enter(self):
                seen.append("enter")
        @S.accessor()
        class Machine:
            def __init__(self):
                self.state_manager = S.StateManager(A(self))
        seen = []
        return [type(Machine().state).__name__, seen]
    out["state"] = tell(state)
    def bic():
        class O:
            @m["boundinnerclass"].BoundInnerClass
            class I:
                def __init__(self, outer):
                    self.outer = outer
        o = O()
        return o.I().outer is o
    out["bic"] = tell(bic)
    d = m["deprecated"]
    out["deprecated"] = tell(lambda: [list(d.split_quoted_strings("a 'b'")), [tuple(i) for i in d.parse_delimiters("a(b)")]])
    out["deprecated lines"] = tell(lambda: [l for i, l in d.lines_strip_comments(t.lines("a # b\nc"), ("#",))])
    return out


def picture():
    "Everything there is to see of the library once all of it is imported."
    mods = {n: sys.modules.get("big." + n) for n in ALL}
    out = {}
    for n, m in mods.items():
        if m is None:
            raise Violation("not-there", f"big.{n} is not among the imported modules")
        names = list(getattr(m, "__all__", [k for k in vars(m) if not k.startswith("_")]))
        for k in names:
            if not hasattr(m, k):
                raise Violation("missing-name", f"big.{n} does not have its public name {k}")
        out[n] = [sorted(names), {k: describe(getattr(m, k)) for k in names}]
    a = mods["all"]
    for n in PUBLIC:
        for k in mods[n].__all__:
            if k not in a.__all__:
                raise Violation("missing-name", f"big.all does not list {k} of big.{n}")
            owners = [getattr(mods[p], k) for p in PUBLIC if k in mods[p].__all__]
            if not any(getattr(a, k) is o for o in owners):
                raise Violation("different-object", f"big.all.{k} is not big.{n}.{k}")
    for n, m in mods.items():
        if getattr(sys.modules["big"], n, None) is not m:
            raise Violation("different-object", f"big.{n} as an attribute is not the imported module")
    return mods, out


@functools.lru_cache(None)
def undisturbed(key):
    "Names, objects and behaviour after importing everything in one go."
    config = json.loads(key)
    with World(config) as w:
        for n in ["all"] + ALL:
            e, _ = w.attempt(n, "module", None)
            if e is not None:
                raise Violation("import-failed", f"import big.{n} in a new process with {config} raised {type(e).__name__}: {e}")
        mods, p = picture()
        return p, behave(mods, config)


class C34(runner.Check):
    id = "C34"
    lists = (("steps",),)
    real = ("importing every module of big", "a few uses of each")
    stubs = ("what the import system finds and reads", "regex and dateutil (absent, broken, or small stand-ins)")
    time_unit = "imports"
    runs = {"quick": 18000, "thorough": 200000}
    rule = ("one case = optional packages absent, broken or present, and 1-10 imports of the library's modules in random order and form (import, from, star, by name), any of them interrupted at a line of module code, interrupted at a nested import, "
            "or failing to read a file, some retried; then everything is imported and public names, their objects and a battery of uses are compared with an undisturbed import; non-trivial = more than one step; distinct by configuration and steps with their outcomes")
    assumptions = ("one thread imports at a time", "the stand-ins offer what the library uses of the optional packages")
    required_probes = ("interrupted_import", "read_error", "retried", "optional_missing", "optional_present", "first_alone")

    def gen(self, rng, index, tier):
        config = {"regex": rng.choice(["absent", "absent", "broken", "there"]), "dateutil": rng.choice(["absent", "absent", "broken", "there"])}
        steps = []
        for _ in range(rng.choice([1, 2, 3, 5, 10])):
            fault = None
            if rng.random() < .45:
                kind = rng.choice(["line", "line", "line", "nested", "read"])
                fault = [kind, rng.randrange(1, {"line": rng.choice([10, 60, 400]), "nested": 40, "read": 12}[kind])]
            name = rng.choice(ALL) if rng.random() < .85 else "all"
            form = rng.choice(["module", "module", "from", "star", "name", "package"])
            steps.append([name, form, fault])
            if fault and rng.random() < .6:
                steps.append([name, form, None])
        last = ALL[:]
        rng.shuffle(last)
        return {"config": config, "steps": steps, "last": last}

    def run(self, case):
        out = runner.Outcome()
        config = case["config"]
        done = []
        try:
            want, uses = undisturbed(json.dumps(config, sort_keys=True))
            bare, plain = undisturbed(json.dumps({"dateutil": "absent", "regex": "absent"}, sort_keys=True))
            for n in ALL:
                extra = set(want[n][0]) - set(bare[n][0])
                if set(bare[n][0]) - set(want[n][0]) or extra - {"parse_timestamp_3339Z"}:
                    raise Violation("names-differ", f"the public names of big.{n} with {config} differ by {sorted(extra | set(bare[n][0]) - set(want[n][0]))} from those without optional packages")
                if n in ("time", "all") and ("parse_timestamp_3339Z" in want[n][0]) != (config["dateutil"] == "there"):
                    raise Violation("names-differ", f"big.{n} with dateutil {config['dateutil']}: parse_timestamp_3339Z is {'not ' if config['dateutil'] == 'there' else ''}there")
            for k, v in uses.items():
                right = {"regex pattern": plain["re pattern"], "parse": "datetime.datetime(2023, 1, 2, 3, 4, 5, tzinfo=datetime.timezone.utc)"}.get(k) or plain[k]
                if v != right:
                    raise Violation("behaviour-differs", f"{k} with {config} gives {v}, not {right}")
            with World(config) as w:
                failed = set()
                for i, (name, form, fault) in enumerate(case["steps"]):
                    before = w.fired
                    e, space = w.attempt(name, form, fault)
                    out.stats[form] += 1
                    done.append((name, form, fault and fault[0], type(e).__name__))
                    if w.fired > before:
                        out.faults[f"import_{fault[0]}"] += 1
                        out.probes["read_error" if fault[0] == "read" else "interrupted_import"] += 1
                        failed.add(name)
                        if e is not None and not isinstance(e, Interrupt) and getattr(e, "errno", None) != 5:
                            # cleaning up a failed import went wrong
                            raise Violation("import-failed", f"import of big.{name}, interrupted, raised {type(e).__name__}: {e}")
                        continue
                    if e is not None:
                        raise Violation("import-failed", f"import of big.{name} ({form}) after {done[:-1]} with {config} raised {type(e).__name__}: {e}")
                    if name in failed:
                        out.probes["retried"] += 1
                    if i == 0:
                        out.probes["first_alone"] += 1
                    if form == "star" and hasattr(sys.modules["big." + name], "__all__"):
                        gone = [k for k in sys.modules["big." + name].__all__ if k not in space]
                        if gone:
                            raise Violation("missing-name", f"from big.{name} import * did not bring {gone}")
                for name in case["last"]:
                    e, _ = w.attempt(name, "module", None)
                    if e is not None:
                        raise Violation("import-failed", f"import of big.{name} after {done} with {config} raised {type(e).__name__}: {e}")
                    done.append((name, "last"))
                out.probes["optional_present" if "there" in config.values() else "optional_missing"] += 1
                mods, got = picture()
                for n in ALL:
                    for part, a, b in (("names", want[n][0], got[n][0]), ("objects", want[n][1], got[n][1])):
                        if a != b:
                            what = sorted(set(a) ^ set(b)) or [k for k in a if a[k] != b[k]] if part == "objects" else sorted(set(a) ^ set(b)) or "repetitions"
                            raise Violation("names-differ", f"the {part} of big.{n} after {done} differ from an undisturbed import: {what}")
                b = behave(mods, config)
                for k in uses:
                    if b.get(k) != uses[k]:
                        raise Violation("behaviour-differs", f"{k} after {done} gives {b.get(k)}, after an undisturbed import {uses[k]}")
        except Violation as v:
            out.violation = (v.kind, v.detail)
        out.switches = []
        out.log = done
        out.sim_time = out.steps = len(done)
        out.nontrivial = len(case["steps"]) > 1
        out.signature = runner.sig((config, done))
        return out
