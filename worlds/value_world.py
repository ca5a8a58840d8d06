"""
C33: versions, timestamps of given times, number conversions, encodings, file
name translations and the deprecated splitters, used by several consumers in
one process.  As in C22, each consumer is first run alone against its own
fresh import, then all of them against one shared import.
"""
import datetime
import json
import os
import time

from sim import runner, seams
from sim.kernel import HarnessError, Violation
from worlds import lazy_world
from worlds.lazy_world import canon, enc, Interrupt
from worlds.sched_threads import gen_sched

VERSIONS = ["1", "1.0", "1.0.0", "1.0a1", "1.0alpha1", "1.0b2", "1.0rc3", "1.0c3", "1!1.0", "0!1.0", "1.0.post1", "1.0-1", "1.0.dev0", "1.0.dev4", "1.0+abc.1", "1.0+abc.2.x", "1.0+abc.2.y", "1.0+1", "2.10", "2.9", "2.9.1",
            "v1.0", "1.0PREVIEW2", " 1.0 ", "1.0a", "1.0.post1.dev2", "1..0", "x", ""]
FIELDS = [{"release": [1]}, {"release": [1, 0]}, {"release": [1, 0, 3]}, {"release": [1], "release_level": "alpha", "serial": 1}, {"release": [1], "release_level": "rc", "serial": 3}, {"release": [1], "post": 1},
          {"release": [1], "dev": 4}, {"release": [1], "epoch": 1}, {"release": [1], "local": ["abc", "1"]}, {"release": []}, {"release": [1], "serial": -1}, {"release": [1], "release_level": "gamma"}]
NUMBERS = ["1", "-1", "1.0", "1.5", "0x10", "", "x", "1e3", "nan", 1, 0, True, 1.0, 2.5, None, [], "٣", " 7 "]
NAMES = ["a:b", "a: b", "a/b", "\x00", "???", "a\\b", "<x>", "ok.txt", "", "a: : b", "|\"*", ":"]
TIMES = [0, 1, 1_000_000_000, 1_700_000_000, 86399, 1_700_000_000.25, 0.0, 951_782_400, 1_711_846_799, 1_711_846_800]
ZONES = ["UTC", "EST5EDT", "CET-1CEST", "XYZ-5:30"]
OFFSETS = [None, 0, 3600, -18000, 19800]
NESTED = [["a", "b"], [["a", ["b"]], "c"], {"a": "b"}, {"a": ["b", {"c": "d"}]}, "abc", [], ["é"], ["a", 3], {"": ""}]
WORDS = ["a", "b ", "(", ")", "[", "]", "{", "}", "'", '"', "\\", "#", "//", "\n", "(a)", "'b'", "x y", '"""', "'''"]
PDELIMS = [None, ["()"], ["()", "[]"], ["()", "<>"], ["{}", "()"], ["(]"], ["((", "()"], ["abc"], []]


def zone(name):
    os.environ["TZ"] = name
    time.tzset()


def moment(a):
    kind, t = a["when"], TIMES[a["t"]]
    if kind == "number":
        return t
    if kind == "gmtime":
        return time.gmtime(t)
    if kind == "localtime":
        return time.localtime(t)
    o = OFFSETS[a["offset"]]
    tz = None if o is None else datetime.timezone(datetime.timedelta(seconds=o))
    return datetime.datetime(2023, 1 + a["t"], 28, 23, 59, 59, a["t"] * 1000, tzinfo=tz)


def picture(v):
    return (str(v), repr(v), v.epoch, v.release, v.major, v.minor, v.micro, v.release_level, v.releaselevel, v.serial, v.post, v.dev, v.local, hash(v) == hash(v))


def make_version(m, i):
    if i < len(VERSIONS):
        return m.version.Version(VERSIONS[i])
    kw = dict(FIELDS[(i - len(VERSIONS)) % len(FIELDS)])
    for k in ("release", "local"):
        if k in kw:
            kw[k] = tuple(kw[k])
    return m.version.Version(**kw)


def build(m, spec, shared):
    f, a, b = spec["f"], spec["a"], spec["b"]

    def argument(key, value):
        "An argument, which must come back as it was."
        if a["share"]:
            value = shared((key, repr(value)), lambda: value)
        watched.append((value, canon(value)))
        return value
    watched = []

    def value(v):
        for o, c in watched:
            if canon(o) != c:
                raise Violation("argument-changed", f"{f} was given {c} and left it as {canon(o)}")
        return "value", v

    def a_version(i):
        "A version, which several consumers may use."
        if a["share"]:
            return shared(("version", i), lambda: make_version(m, i))
        return make_version(m, i)

    if f == "version":
        return value(picture(a_version(a["v"])))
    if f == "compare":
        v, w = a_version(a["v"]), a_version(a["w"])
        return value([v == w, v != w, v < w, v <= w, v > w, v >= w, v == str(v), picture(v), picture(w)])
    if f == "sort":
        vs = [a_version(i) for i in a["many"]]
        def walk():
            for v in sorted(vs):
                yield v
            yield [picture(v)[0] for v in vs]
        return "iter", walk()
    if f == "versions_kept":
        # one object looked at again and again
        v = a_version(a["v"])
        def looks():
            first = picture(v) + (hash(v),)
            for w in a["many"]:
                x = make_version(m, w)
                yield [v == x, v < x, x < v]
                now = picture(v) + (hash(v),)
                if now != first:
                    raise Violation("value-changed", f"a version first seen as {first} is now seen as {now}")
                if not v == v or v != v or v < v:
                    raise Violation("value-changed", f"{v!r} is no longer equal to itself")
                if a["v"] < len(VERSIONS) and a["twist"] and (make_version(m, a["v"]) != v or v != make_version(m, a["v"])):
                    raise Violation("value-changed", f"{v!r} is no longer equal to a new version made from the same string")
        return "iter", looks()
    if f == "running_version":
        return value(str(m.metadata.version))
    if f in ("try_float", "try_int"):
        return value(getattr(m.builtin, f)(NUMBERS[a["n"]]))
    if f in ("get_float", "get_int", "get_int_or_float"):
        if a["default"] is None:
            return value(getattr(m.builtin, f)(NUMBERS[a["n"]]))
        return value(getattr(m.builtin, f)(NUMBERS[a["n"]], a["default"]))
    if f == "pure_virtual":
        class C:
            pass
        def method(self, x):
            "docs"
        method.__name__ = f"method{a['n']}"
        C.method = m.builtin.pure_virtual()(method)
        def calls():
            for i in range(3):
                try:
                    C().method(i)
                except NotImplementedError as e:
                    yield str(e)
        return "iter", calls()
    if f == "encode_strings":
        o = argument("nested", json.loads(json.dumps(NESTED[a["nested"]])))
        if a["twist"] == 1:
            o = tuple(o) if isinstance(o, list) else o
        return value(m.text.encode_strings(o, ["ascii", "utf-8", "latin-1"][a["twist"]]) if a["default"] else m.text.encode_strings(o))
    if f in ("translate_filename_to_exfat", "translate_filename_to_unix"):
        return value(getattr(m.file, f)(NAMES[a["name"]]))
    if f in ("timestamp_human", "timestamp_3339Z"):
        return value(getattr(m.time, f)(moment(a), a["micro"]))
    if f in ("datetime_set_timezone", "datetime_ensure_timezone"):
        d = moment(dict(a, when="datetime"))
        r = getattr(m.time, f)(d, datetime.timezone.utc)
        return value([str(r), str(d)])
    text = enc("".join(spec["text"]), b)
    if f == "parse_delimiters":
        ds = PDELIMS[a["pd"]]
        if ds is None:
            return "iter", iter(m.deprecated.parse_delimiters(text))
        ds = argument("pd", enc(list(ds), b))
        if a["twist"]:
            q = enc("'", b)
            ds = ds + [m.deprecated.Delimiter(q, q, backslash=True, nested=False)]
        return "iter", iter(m.deprecated.parse_delimiters(text, ds))
    if f == "split_quoted_strings":
        kw = {"triple_quotes": bool(a["twist"])}
        if a["default"]:
            kw["quotes"] = argument("q", enc(["'"], b))
        return "iter", iter(m.deprecated.split_quoted_strings(text, **kw))
    if f == "lines_strip_comments":
        it = m.text.lines(text)
        kw = {} if not b else {"quotes": (b"'", b'"'), "backslash": b"\\"}
        return "iter", iter(m.deprecated.lines_strip_comments(it, argument("cs", enc([["#"], ["#", "//"], ["//"]][a["twist"]], b)), rstrip=bool(a["default"]), **kw))
    raise HarnessError(f)


FUNCS = {"version": 4, "compare": 5, "sort": 3, "versions_kept": 3, "running_version": .3, "try_float": 1, "try_int": 1, "get_float": 1, "get_int": 1, "get_int_or_float": 2, "pure_virtual": 2, "encode_strings": 3,
         "translate_filename_to_exfat": 2, "translate_filename_to_unix": 1, "timestamp_human": 4, "timestamp_3339Z": 3, "datetime_set_timezone": 1, "datetime_ensure_timezone": 1,
         "parse_delimiters": 4, "split_quoted_strings": 3, "lines_strip_comments": 3}
# the arguments that matter
USED = {"version": "v share", "compare": "v w share", "sort": "many share", "versions_kept": "v many twist share", "running_version": "n", "try_float": "n", "try_int": "n", "get_float": "n default", "get_int": "n default", "get_int_or_float": "n default",
        "pure_virtual": "n", "encode_strings": "nested twist default share", "translate_filename_to_exfat": "name", "translate_filename_to_unix": "name", "timestamp_human": "t when offset micro",
        "timestamp_3339Z": "t when offset micro", "datetime_set_timezone": "t offset", "datetime_ensure_timezone": "t offset", "parse_delimiters": "pd twist share", "split_quoted_strings": "twist default share",
        "lines_strip_comments": "twist default share"}
BYTES = {"parse_delimiters", "split_quoted_strings", "lines_strip_comments"}


class Modules:
    def __init__(self, specs):
        names = sorted({n for s in specs for n in HOME.get(s["f"], "version").split()})
        mods = seams.fresh(*names, seams=False)
        for n, m in zip(names, mods if len(names) > 1 else [mods]):
            setattr(self, n, m)


HOME = {"running_version": "metadata", "try_float": "builtin", "try_int": "builtin", "get_float": "builtin", "get_int": "builtin", "get_int_or_float": "builtin", "pure_virtual": "builtin", "encode_strings": "text",
        "translate_filename_to_exfat": "file", "translate_filename_to_unix": "file", "timestamp_human": "time", "timestamp_3339Z": "time", "datetime_set_timezone": "time", "datetime_ensure_timezone": "time",
        "parse_delimiters": "deprecated", "split_quoted_strings": "deprecated", "lines_strip_comments": "deprecated text"}


class User(lazy_world.Consumer):
    build = staticmethod(build)

    def act(self):
        zone(self.spec["zone"])
        super().act()

    @classmethod
    def fresh(cls, spec, shared):
        zone(spec["zone"])
        return cls(Modules([spec]), spec, shared)


class C33(lazy_world.C22):
    id = "C33"
    kind = User
    real = ("big.version", "big.builtin", "big.metadata", "big.deprecated", "big.time (timestamps of given times)", "big.file (file name translation)", "big.text.encode_strings")
    stubs = ("thread scheduler (in the threaded half)", "the process's time zone")
    runs = {"quick": 30000, "thorough": 700000}
    rule = ("one case = 2-6 consumers of versions, timestamps of given times, number conversions, encodings, file name translations, abstract methods and deprecated splitters, with arguments from small pools, "
            "in time zones that change between steps; interleaved, abandoned, interrupted at a line inside the library, or one thread each with preemption inside the library; compared with each consumer run alone on a fresh import; "
            "non-trivial = at least one switch between live consumers; distinct by consumers and interleaving")
    required_probes = ("same_arguments", "shared_argument_object", "abandoned", "switch_inside_library", "interrupted", "after_interrupt", "zone_changed")

    def gen(self, rng, index, tier):
        threads = int(rng.random() < .3)
        home = rng.choice(ZONES)
        clients = []
        favourite = rng.choice(list(FUNCS)) if rng.random() < .7 else None
        near = rng.choice([.3, .6, .9, .95])
        race = rng.random() < .08
        if race:
            # several threads use the same new version at once
            threads, near = 1, 1
            a = dict(self.args(rng), share=1)
            if rng.random() < .5:
                a["w"] = a["v"]
            clients.append({"f": rng.choice(["compare", "compare", "sort", "version", "versions_kept"]), "a": a, "b": 0, "text": [], "take": None, "zone": home, "close": 0})
        for _ in range(rng.choice([2, 3, 4, 6, 8])):
            if clients and rng.random() < near:
                c = json.loads(json.dumps(rng.choice(clients)))
                fresh = self.args(rng)
                used = USED[c["f"]].split()
                for k in rng.sample(used, 0 if race else min(len(used), rng.choice([0, 1, 1, 2]))):
                    c["a"][k] = fresh[k]
                if c["f"] in BYTES and rng.random() < .3:
                    c["b"] ^= 1
            else:
                f = favourite if favourite and rng.random() < .8 else rng.choices(list(FUNCS), list(FUNCS.values()))[0]
                c = {"f": f, "a": self.args(rng), "b": int(f in BYTES and rng.random() < .35), "text": [rng.choice(WORDS) for _ in range(rng.choice([0, 3, 8, 15]))] if f in BYTES else []}
            c["zone"] = home if threads or rng.random() < .5 else rng.choice(ZONES)
            c["take"] = rng.choice([None, None, None, 0, 1, 3])
            c["close"] = rng.randrange(2)
            clients.append(c)
        case = {"clients": clients, "threads": threads, "order": [rng.randrange(8) for _ in range(40)], "home": home}
        if threads:
            case["sched"] = gen_sched(rng, 200)
        else:
            self.gen_interrupts(rng, clients)
        return case

    def args(self, rng):
        n = len(VERSIONS) + len(FIELDS)
        return {"v": rng.randrange(n), "w": rng.randrange(n), "many": [rng.choice([*range(20), *range(28, 36)]) for _ in range(rng.choice([2, 4, 7]))], "n": rng.randrange(len(NUMBERS)),
                "default": rng.choice([None, 0, 5]), "nested": rng.randrange(len(NESTED)), "twist": rng.randrange(3), "name": rng.randrange(len(NAMES)), "t": rng.randrange(len(TIMES)),
                "when": rng.choice(["number", "number", "gmtime", "localtime", "datetime", "datetime"]), "offset": rng.randrange(len(OFFSETS)), "micro": rng.choice([None, True, False]), "pd": rng.randrange(len(PDELIMS)),
                "share": rng.randrange(2)}

    def consumers(self, case, shared):
        zone(case["home"])
        m = Modules(case["clients"])
        return [self.kind(m, s, shared) for s in case["clients"]]

    def run(self, case):
        before = os.environ.get("TZ")
        try:
            out = super().run(case)
        finally:
            if before is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = before
            time.tzset()
        if len({c["zone"] for c in case["clients"]} | {case["home"]}) > 1:
            out.probes["zone_changed"] += 1
            out.faults["zone_change"] += 1
        return out
