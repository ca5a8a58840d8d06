"""
C22: several consumers of the text module's iterators and calls in one
process.  Each consumer is first run alone against its own freshly imported
library; then all of them run against one shared fresh import, interleaved
item by item, or in threads that are preempted inside the library.
"""
import functools
import json
import sys

from sim import kernel as K, runner, seams
from sim.kernel import Violation, HarnessError, Injected
from worlds.sched_threads import gen_sched


def canon(x, depth=0):
    "A comparable picture of a result."
    if depth > 12:
        return "..."
    if isinstance(x, float):
        return ("float", repr(x))
    if x is None or isinstance(x, (str, bytes, int, bool)):
        return (type(x).__name__, x)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(canon(i, depth + 1) for i in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((canon(k, depth + 1), canon(v, depth + 1)) for k, v in x.items())
    if hasattr(x, "span") and hasattr(x, "group"):
        return ("match", x.span(), x.group(), x.groups())
    if hasattr(x, "line_number"):
        return ("info", x.line_number, x.column_number, x.line, x.leading, x.trailing, x.end, x.indent, canon(x.match, depth + 1))
    return ("object", type(x).__name__, str(x))


def enc(o, b):
    if not b:
        return o
    if isinstance(o, str):
        return o.encode("ascii")
    if isinstance(o, list):
        return [enc(i, b) for i in o]
    if isinstance(o, tuple):
        return tuple(enc(i, b) for i in o)
    if isinstance(o, dict):
        return {enc(k, b): enc(v, b) for k, v in o.items()}
    return o


SEPS = [[" "], [" ", ","], [",", " "], ["ab", "a"], ["a", "ab"], ["a", "b"], ["\n", "\r\n", "\r"], ["--", "-"], ["(", ")"], [".", "a.", "*"]]
DELIMS = [
    {"(": (")", "", 1), "[": ("]", "", 1)},
    {"[": ("]", "", 1), "(": (")", "", 1)},
    {"(": (")", "", 1), '"': ('"', "\\", 0)},
    {"(": (")", "", 1), '"': ('"', "\\", 1)},
    {"(": (")", "", 1), '"': ('"', "^", 1)},
    {"(": (")", "", 1), '"': ("'", "\\", 1)},
    {"<": (">", "", 1), "<<": (">>", "", 1)},
    {"<": (">>", "", 1), "<<": (">", "", 1)},
    {"<": (">", "\\", 1), ">b": ("]", "", 1)},
    {"<": (">", "\\", 1), "[": (">a", "", 1)},
    {"'": ("'", "\\", 0), "''": ("''", "\\", 1)},
    {"'": ("'", "''", 1), "(": (")", "", 1)},
    {"<[": ("]>", "**", 1), "*": ("]", "", 0)},
]
PATTERNS = ["a", "a+", "[ab]", "b*", "(a)|(b)", "a.b", "\\W+", "ab|a"]
TABS = [4, 8, 2]
WORDS = ["a", "b", "ab", "aba", " ", "  ", ",", "-", "--", ".", "\n", "\r\n", "(", ")", "[", "]", "<", ">", "'", '"', "^", "#", "//", "\t", "hello", "World", "iPhone"]


def build(mod, spec, shared):
    """
    Return ('iter', iterator) or ('value', object) for one consumer.
    shared(key, make) gives objects that several consumers may pass in common.
    """
    f, a, b = spec["f"], spec["a"], spec["b"]
    e = functools.partial(enc, b=b)
    text = e("".join(spec["text"]))

    def seps():
        i = a["seps"]
        if i is None:
            return None
        how = a["seps_as"]
        if how == "shared":
            return shared(("seps", i, b), lambda: e(list(SEPS[i])))
        v = e(list(SEPS[i]))
        return tuple(v) if how == "tuple" else v

    if f == "multisplit":
        keep = {0: False, 1: True, 2: mod.ALTERNATING, 3: mod.AS_PAIRS}[a["keep"]]
        strip = {0: False, 1: True, 2: mod.LEFT, 3: mod.RIGHT, 4: mod.PROGRESSIVE}[a["strip"]]
        return "iter", mod.multisplit(text, seps(), keep=keep, maxsplit=a["max"], reverse=bool(a["reverse"]), separate=bool(a["separate"]), strip=strip)
    if f == "multistrip":
        return "value", mod.multistrip(text, seps() or e([" "]), bool(a["left"]), bool(a["right"]))
    if f == "multipartition":
        return "value", mod.multipartition(text, seps() or e([" "]), a["count"], reverse=bool(a["reverse"]), separate=bool(a["separate"]))
    if f == "multirpartition":
        return "value", mod.multirpartition(text, seps() or e([" "]), a["count"], reverse=bool(a["reverse"]), separate=bool(a["separate"]))
    if f in ("re_partition", "re_rpartition", "reversed_re_finditer"):
        import re
        p = e(PATTERNS[a["pattern"]])
        if a["compiled"]:
            p = shared(("re", a["pattern"], b), lambda: re.compile(p))
        if f == "reversed_re_finditer":
            return "iter", iter(mod.reversed_re_finditer(p, text))
        if f == "re_partition":
            return "value", mod.re_partition(text, p, a["count"], reverse=bool(a["reverse"]))
        return "value", mod.re_rpartition(text, p, a["count"])
    if f == "split_title_case":
        return "iter", mod.split_title_case(text, split_allcaps=bool(a["reverse"]))
    if f == "combine_splits":
        def cuts(n):
            out, left = [], len(text)
            while left > 0:
                out.append(text[len(text) - left:len(text) - left + n])
                left -= n
            return out
        return "iter", mod.combine_splits(text, cuts(a["count"] + 1), shared(("cuts", spec["shared_text"], b), lambda: cuts(3)) if spec["shared_text"] is not None else cuts(3))
    if f == "gently_title":
        kw = {}
        if a["left"]:
            kw["apostrophes"] = e(["^", "<", "b^"][a["tabs"]])
        if a["right"]:
            kw["double_quotes"] = e(["<", "-", "<#"][a["tabs"]])
        return "value", mod.gently_title(text, **kw)
    if f == "normalize_whitespace":
        return "value", mod.normalize_whitespace(text, seps(), e(["_", "", "--"][a["tabs"]]) if a["reverse"] else None)
    if f == "split_quoted_strings":
        kw = {}
        if a["quotes"]:
            kw["quotes"] = e([['"', "'"], ["'"], ['"', "<"]][a["quotes"] - 1])
        if a["multi"]:
            kw["multiline_quotes"] = e([["--"], ['^', "--"]][a["multi"] - 1])
        if a["escape"]:
            kw["escape"] = e(["\\", "#", ""][a["escape"] - 1])
        if a["state"] and kw.get("multiline_quotes"):
            kw["state"] = kw["multiline_quotes"][0]
        return "iter", mod.split_quoted_strings(text, **kw)
    if f == "split_delimiters":
        state = e(list(a["dstate"]))
        if a["delims"] is None:
            return "iter", mod.split_delimiters(text, state=state)
        def make():
            return {e(o): mod.Delimiter(e(c), escape=e(x), multiline=bool(m), quoting=bool(x)) for o, (c, x, m) in DELIMS[a["delims"]].items()}
        d = shared(("delims", a["delims"], b), make) if a["seps_as"] == "shared" else make()
        return "iter", mod.split_delimiters(text, d, state=state)
    if f == "lines":
        it = mod.lines(text, line_number=a["count"], tab_width=TABS[a["tabs"]], column_number=a["count"] - 1)
        for m in a["mods"]:
            if m == "rstrip":
                it = mod.lines_rstrip(it)
            elif m == "strip":
                it = mod.lines_strip(it)
            elif m == "strip_seps":
                it = mod.lines_strip(it, e([" ", "a"]))
            elif m == "comments":
                it = mod.lines_filter_line_comment_lines(it, e(["#", "//"]))
            elif m == "strip_comments":
                it = mod.lines_strip_line_comments(it, e(["#", "//"]))
            elif m == "strip_comments_q":
                it = mod.lines_strip_line_comments(it, e(["#"]), quotes=e(["'"]), escape=e("\\"), multiline_quotes=e(['"']))
            elif m == "containing":
                it = mod.lines_containing(it, e("a"))
            elif m == "grep":
                it = mod.lines_grep(it, e("a+"))
            elif m == "igrep":
                it = mod.lines_grep(it, e("b"), invert=True)
            elif m == "sort":
                it = mod.lines_sort(it, reverse=bool(a["reverse"]))
            elif m == "tabs":
                it = mod.lines_convert_tabs_to_spaces(it)
            elif m == "indent":
                it = mod.lines_strip_indent(it)
            elif m == "empty":
                it = mod.lines_filter_empty_lines(it)
        return "iter", iter(it)
    if f == "wrap_words":
        words = list(mod.split_text_with_code(text)) if a["reverse"] else text.split()
        return "value", mod.wrap_words(words, 5 + a["count"] * 4, two_spaces=bool(a["left"]))
    if f == "split_text_with_code":
        return "iter", iter(mod.split_text_with_code(text, tab_width=TABS[a["tabs"]], allow_code=bool(a["reverse"])))
    if f == "merge_columns":
        S = mod.OverflowStrategy
        kw = {"overflow_before": 1, "overflow_after": a["count"] - 1} if a["right"] else {}
        return "value", mod.merge_columns((text, 1, 10), ("b\nc", a["count"], 8), column_separator="|" if a["left"] else " ",
                                          overflow_strategy=[S.DELAY_ALL, S.INTRUDE_ALL, S.INTRUDE_MINIMUM][a["tabs"]], **kw)
    if f == "int_to_words":
        return "value", mod.int_to_words(len(text) * 1237 ** (a["count"] + 1) - 5000, flowery=bool(a["reverse"]), ordinal=bool(a["separate"]))
    raise HarnessError(f)


FUNCS = {"multisplit": 8, "multistrip": 2, "multipartition": 3, "multirpartition": 2, "re_partition": 2, "re_rpartition": 2, "reversed_re_finditer": 4,
         "split_title_case": 3, "combine_splits": 2, "gently_title": 2, "normalize_whitespace": 2, "split_quoted_strings": 5, "split_delimiters": 6,
         "lines": 7, "wrap_words": 1, "split_text_with_code": 2, "merge_columns": 2, "int_to_words": 1}
MODS = ["rstrip", "strip", "strip_seps", "comments", "strip_comments", "strip_comments_q", "containing", "grep", "igrep", "sort", "tabs", "indent", "empty"]
NO_BYTES = {"wrap_words", "split_text_with_code", "merge_columns", "int_to_words"}


class Interrupt(BaseException):
    "An interrupt (a signal, a cancelled task) that hits a consumer inside the library."


class Interrupter:
    "Lets one consumer's n-th line of library code be interrupted."
    def __init__(self, n):
        self.left = n
        self.fired = False

    def __enter__(self):
        self.before = sys.gettrace()
        sys.settrace(self.tracer)

    def __exit__(self, *args):
        sys.settrace(self.before)

    def tracer(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(seams.BIG) else None

    def local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.left -= 1
            if self.left <= 0:
                self.fired = True
                raise Interrupt()
        return self.local


class Consumer:
    "One consumer: builds its iterator (or makes its call), takes items, records what it saw."
    build = staticmethod(build)

    def __init__(self, mod, spec, shared):
        self.mod, self.spec, self.shared = mod, spec, shared
        self.seen = []
        self.done = False
        self.it = None
        self.started = False
        self.interrupted = False
        self.interrupter = None

    def step(self):
        "One step, which may be interrupted."
        if self.interrupter is None:
            return self.act()
        try:
            with self.interrupter:
                self.act()
        except Interrupt:
            self.interrupted = True
            self.finish()

    def act(self):
        "One step: build, or take one item.  Sets done at the end."
        s = self.spec
        try:
            if not self.started:
                self.started = True
                kind, v = self.build(self.mod, s, self.shared)
                if kind == "value":
                    self.seen.append(("value", canon(v)))
                    spoil(v)
                    self.finish()
                else:
                    self.it = v
                return
            if s["take"] is not None and len(self.seen) >= s["take"]:
                if s["close"] and hasattr(self.it, "close"):
                    self.it.close()
                self.finish()
                return
            try:
                v = next(self.it)
            except StopIteration:
                self.seen.append(("end",))
                self.finish()
                return
            self.seen.append(("item", canon(v)))
            spoil(v)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            self.seen.append(("raised", type(e).__name__, str(e)))
            self.finish()

    def finish(self):
        self.done = True
        self.it = None

    @classmethod
    def fresh(cls, spec, shared):
        "A consumer that is alone in the world."
        return cls(seams.fresh("text"), spec, shared)


def spoil(v):
    "A result belongs to whoever received it: overwrite what is mutable in it."
    if isinstance(v, list):
        v.clear()
    elif isinstance(v, dict):
        v.clear()


def no_sharing(key, make):
    return make()


@functools.lru_cache(maxsize=20000)
def alone(kind, key):
    spec = json.loads(key)
    c = kind.fresh(spec, no_sharing)
    for _ in range(2000):
        if c.done:
            return tuple(c.seen)
        c.step()
    return ("endless", tuple(c.seen[:5]))


class C22(runner.Check):
    id = "C22"
    lists = (("clients",), ("order",))
    real = ("big.text: multisplit and its relatives, reversed_re_finditer, split_quoted_strings, split_delimiters, lines and all line modifiers, split_text_with_code and the rest",)
    stubs = ("thread scheduler (in the threaded half)",)
    time_unit = "consumer steps"
    runs = {"quick": 60000, "thorough": 700000}
    rule = ("one case = 2-6 consumers of library iterators and calls (with arguments drawn from small pools, so that they meet in the library's caches, str and bytes, some sharing argument objects), each consumed to the end, "
            "or abandoned or closed after some items; interleaved item by item, or one thread each with preemption inside the library; compared with each consumer run alone on a fresh import; "
            "non-trivial = at least one switch between live consumers; distinct by consumers and interleaving")
    assumptions = ("an iterator is only advanced by one consumer", "argument objects shared by consumers are not changed by them")
    required_probes = ("same_arguments", "shared_argument_object", "abandoned", "str_and_bytes", "switch_inside_library", "interrupted", "after_interrupt")
    kind = Consumer

    def gen(self, rng, index, tier):
        clients = []
        favourite = rng.choice(list(FUNCS)) if rng.random() < .5 else None
        for _ in range(rng.choice([2, 2, 3, 4, 6])):
            if clients and rng.random() < .35:
                # the same again, or nearly
                c = json.loads(json.dumps(rng.choice(clients)))
                r = rng.random()
                if r < .3:
                    c["a"][rng.choice(["reverse", "separate", "left", "right"])] ^= 1
                elif r < .45:
                    k, n = ("escape", 4) if c["f"] == "split_quoted_strings" and rng.random() < .4 else rng.choice([("keep", 4), ("strip", 5), ("tabs", 3), ("pattern", len(PATTERNS)), ("quotes", 4), ("multi", 3), ("escape", 4), ("state", 2), ("compiled", 2)])
                    c["a"][k] = rng.randrange(n)
                elif r < .5:
                    c["a"]["count"] = rng.randrange(1, 4)
                elif r < .6:
                    c["b"] = int(not c["b"]) if c["f"] not in NO_BYTES else 0
                elif r < .75:
                    c["a"]["delims"] = rng.choice([None] + list(range(len(DELIMS))))
                    c["a"]["seps"] = rng.choice([None] + list(range(len(SEPS))))
                elif r < .85:
                    c["text"] = [rng.choice(WORDS) for _ in range(rng.choice([3, 8, 15]))]
                c["take"] = rng.choice([None, None, 1, 3])
                clients.append(c)
                continue
            f = favourite if favourite and rng.random() < .6 else rng.choices(list(FUNCS), list(FUNCS.values()))[0]
            n = rng.choice([0, 3, 8, 15, 25])
            if f == "reversed_re_finditer":
                n = min(n, 8)
            a = {"seps": rng.choice([None] + list(range(len(SEPS)))), "seps_as": rng.choice(["list", "tuple", "shared"]), "keep": rng.randrange(4), "strip": rng.randrange(5),
                 "max": rng.choice([-1, -1, 0, 1, 2, 5]), "reverse": rng.randrange(2), "separate": rng.randrange(2), "left": rng.randrange(2), "right": rng.randrange(2),
                 "count": rng.randrange(1, 4), "pattern": rng.randrange(len(PATTERNS)), "tabs": rng.randrange(3), "compiled": rng.randrange(2), "quotes": rng.randrange(4), "multi": rng.randrange(3),
                 "escape": rng.randrange(4), "state": rng.randrange(2), "delims": rng.choice([None] + list(range(len(DELIMS)))), "dstate": ["("] if rng.random() < .2 else [],
                 "mods": [rng.choice(MODS) for _ in range(rng.choice([0, 1, 2, 3]))] if f == "lines" else []}
            ws = WORDS
            if f == "split_delimiters" and rng.random() < .8:
                ws = ["a", "b ", "()", "[a]", "(b", ")", "([])", "\n", "(a(b)", "<a>"]
                if a["delims"] is not None and rng.random() < .75:
                    ws = ["a", "b", " "]
                    for o, (x, y, _) in DELIMS[a["delims"]].items():
                        ws += [o, x, o + "a" + x, o + x] + ([y, o + y + "a" + x] if y else [])
            elif f == "split_quoted_strings" and rng.random() < .8:
                ws = ["a", "b ", "'", '"', "\\", "#", "'a'", '"b"', "'a\\'b'", "'a#'b'", "--", "^", "\n", "<", "\\\\", "##"]
            elif f == "lines":
                ws = WORDS + ["\n"] * 8
            clients.append({"f": f, "a": a, "b": int(f not in NO_BYTES and rng.random() < .35), "text": [rng.choice(ws) for _ in range(n)],
                            "take": rng.choice([None, None, None, 0, 1, 3, 6]), "close": rng.randrange(2), "shared_text": None})
        race = rng.random() < .06
        if race:
            # several threads start with the same at once
            c = dict(clients[0], take=None)
            clients = [c] + [json.loads(json.dumps(c)) for _ in range(rng.choice([1, 1, 2]))]
        case = {"clients": clients, "threads": int(race or rng.random() < .33), "order": [rng.randrange(6) for _ in range(60)]}
        if case["threads"]:
            case["sched"] = gen_sched(rng, 400)
        else:
            self.gen_interrupts(rng, clients)
        return case

    @staticmethod
    def gen_interrupts(rng, clients):
        if rng.random() < .35:
            for c in clients:
                if rng.random() < .4:
                    c["interrupt"] = rng.choice([1, 3, 6, 10, 20, 40]) + rng.randrange(12)

    def run(self, case):
        out = runner.Outcome()
        specs = case["clients"]
        cache = {}

        def shared(key, make):
            if key in cache:
                out.probes["shared_argument_object"] += 1
            else:
                cache[key] = make()
            return cache[key]
        consumers = []
        try:
            want = [alone(self.kind, json.dumps({k: v for k, v in s.items() if k != "interrupt"}, sort_keys=True)) for s in specs]
            consumers = self.consumers(case, shared)
            for i, s in enumerate(specs):
                for t in specs[:i]:
                    if t["f"] == s["f"] and t["a"] == s["a"]:
                        out.probes["same_arguments" if t["b"] == s["b"] else "str_and_bytes"] += 1
                if s["take"] is not None:
                    out.probes["abandoned"] += 1
                    out.faults["abandoned"] += 1
            if case["threads"]:
                self.threaded(case, consumers, out)
            else:
                self.interleaved(case, consumers, out)
            hit = [i for i, c in enumerate(consumers) if c.interrupted]
            for i, (c, w) in enumerate(zip(consumers, want)):
                if c.interrupted:
                    out.faults["interrupt"] += 1
                    out.probes["interrupted"] += 1
                    w = w[:len(c.seen)]
                elif hit:
                    out.probes["after_interrupt"] += 1
                if tuple(c.seen) != w:
                    k = next((n for n, (x, y) in enumerate(zip(c.seen, w)) if x != y), min(len(c.seen), len(w)))
                    raise Violation("interference", f"consumer {i} ({specs[i]['f']}) saw {c.seen[k:k + 1]} where alone it sees {list(w[k:k + 1])}")
        except Violation as v:
            out.violation = (v.kind, v.detail)
        if out.switches is None:
            out.switches = []
        out.steps = sum(len(c.seen) for c in consumers) if not out.violation or consumers else 0
        out.sim_time = out.steps
        out.signature = runner.sig((json.dumps(specs), out.log[:200], case["threads"]))
        return out

    def consumers(self, case, shared):
        mod = seams.fresh("text")
        return [self.kind(mod, s, shared) for s in case["clients"]]

    def interleaved(self, case, consumers, out):
        for c in consumers:
            if c.spec.get("interrupt"):
                c.interrupter = Interrupter(c.spec["interrupt"])
        live = list(range(len(consumers)))
        order = case["order"] or [0]
        n = 0
        last = None
        while live:
            i = live[order[n % len(order)] % len(live)]
            n += 1
            if n > 20000:
                raise Violation("no-progress", "consumers do not finish")
            if last is not None and i != last:
                out.faults["switch_between_iterators"] += 1
                out.nontrivial = True
            c = consumers[i]
            c.step()
            out.log.append((i, repr(c.seen[-1])[:80] if c.seen else ""))
            last = i
            if c.done:
                live.remove(i)
                last = None

    def threaded(self, case, consumers, out):
        k = K.Kernel(case["sched"], step_cap=150_000, code_prefixes=seams.CODE_PREFIXES)
        inside = [0] * len(consumers)

        def body(i, c):
            while not c.done:
                inside[i] = 1
                n = sum(inside)
                c.step()
                inside[i] = 0
                if n > 1:
                    out.probes["switch_inside_library"] += 1
                    out.nontrivial = True
                k.note(i, len(c.seen))
        for i, c in enumerate(consumers):
            k.spawn(f"c{i}", lambda i=i, c=c: body(i, c))
        k.run()
        out.switches = k.switches
        out.log = k.log
        out.faults["preemption"] += len(k.switches)
        if k.violation:
            raise Violation(*k.violation)
