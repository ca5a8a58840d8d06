"""
C19: pipelines of line iterators over live sources that supply lines over
(virtual) time, stall, and fail - for good or transiently.

The complete input fixes what a pipeline must deliver; the time at which the
source has supplied what determines each line fixes when it must deliver it.
"""
import re

from sim import runner, seams
from sim.kernel import Violation, HarnessError, Injected, InjectedOS, InjectedBase

EXCS = {"plain": Injected, "os": InjectedOS, "base": InjectedBase, "value": ValueError, "index": IndexError, "runtime": RuntimeError, "type": TypeError,
        "syntax": SyntaxError, "indent": IndentationError, "unicode": lambda s: UnicodeDecodeError("utf-8", b"", 0, 1, s), "eof": EOFError, "attr": AttributeError,
        "key": KeyError, "kbd": KeyboardInterrupt}
ATOMS = ["a", "b", "ab", " ", "  ", "    ", "\t", "#", "//", "-", "x", "", '"', "'", '"""', "\\", "z9", "é"]
ENDS = ["\n", "\n", "\n", "\r\n", "\r", ""]
END = 1 << 30


class Source:
    """Supplies items at their arrival times; fails where the case says so."""
    def __init__(self, items, arrivals, faults, out, recover):
        self.items, self.arrivals = items, arrivals
        self.faults = dict((n, e) for n, e in faults)
        self.out = out
        self.recover = recover
        self.pos = 0
        self.now = 0
        self.dead = False
        self.failed = None
        self.ended = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.dead:
            raise StopIteration
        n = self.pos
        if n in self.faults:
            e = EXCS[self.faults.pop(n)]("injected source failure")
            self.failed = e
            self.out.faults["source_failed_" + type(e).__name__] += 1
            if not self.recover:
                self.dead = True
            raise e
        if n >= len(self.items):
            self.ended = True
            raise StopIteration
        if self.arrivals[n] > self.now:
            self.now = self.arrivals[n]
        self.pos += 1
        return self.items[n]


def as_generator(src):
    yield from src


class Held:
    __slots__ = ("info", "line", "snap")


class World:
    def __init__(self, case, out):
        if case.get("times"):
            # many lines, perhaps each deeper than the one before
            case = dict(case)
            n = case["times"]
            case["lines"] = [[" " * (k * case["grow"]) + l, e] for k in range(n) for l, e in case["lines"]]
            last = max(case["arrivals"], default=0)
            case["arrivals"] = [k * last + a for k in range(n) for a in case["arrivals"]]
            case["faults"] = [[f * n // 2, e] for f, e in case["faults"]]
        self.case, self.out, self.log = case, out, out.log
        self.mod = seams.fresh("text")
        self.bytes = case["bytes"]

    def enc(self, s):
        return s.encode("utf-8") if self.bytes else s

    def stage(self, li, st):
        m = self.mod
        kind = st[0]
        e = self.enc
        sep = {0: None, 1: tuple(map(e, (" ", "\t"))), 2: tuple(map(e, ("x", "-", "ab")))}
        if kind == "rstrip":
            return m.lines_rstrip(li, sep[st[1]])
        if kind == "strip":
            return m.lines_strip(li, sep[st[1]])
        if kind == "fcl":
            return m.lines_filter_line_comment_lines(li, [e("#"), (e("#"), e("//")), (e("//"),)][st[1]])
        if kind == "containing":
            return m.lines_containing(li, e("ab"[st[1] % 2]), invert=bool(st[1] // 2))
        if kind == "grep":
            return m.lines_grep(li, e(["[ab]+", "^ *x?"][st[1] % 2]), invert=bool(st[1] // 2))
        if kind == "sort":
            key = None if st[1] % 2 else (lambda t: (t[0].line_number * 7) % 5)
            return m.lines_sort(li, key=key, reverse=bool(st[1] // 2))
        if kind == "comments":
            kw = [{}, {"quotes": (e('"'), e("'"))}, {"quotes": (e("'"),), "multiline_quotes": (e('"""'),)}, {"multiline_quotes": (e('"'),), "escape": e("")}][st[1]]
            if self.bytes and "escape" not in kw:
                kw["escape"] = b"\\"
            return m.lines_strip_line_comments(li, (e("#"), e("//")), **kw)
        if kind == "tabs":
            return m.lines_convert_tabs_to_spaces(li)
        if kind == "indent":
            return m.lines_strip_indent(li)
        if kind == "empty":
            return m.lines_filter_empty_lines(li)
        raise HarnessError(kind)

    def snap(self, info, line):
        m = info.match
        return (line, info.line, info.line_number, info.column_number, info.leading, info.trailing, info.end, info.indent, None if m is None else (m.span(), m.group()))

    def kw(self):
        c = self.case
        return {"line_number": c["first"], "column_number": c["column"], "tab_width": c["tab"]}

    def items(self):
        e = self.enc
        if self.case["pairs"]:
            return [(e(l), e(x)) for l, x in self.case["lines"]]
        return [e(l) for l, x in self.case["lines"]]

    def complete(self, stages):
        """What the pipeline gives over the complete input: snapshots, and the exception ending it with what it had read by then."""
        case = self.case
        if case["pairs"]:
            data = self.enc("").join(l + x for l, x in self.items())
            src = None
            if case["text"]:
                li = self.mod.lines(data, **self.kw())
            else:
                src = Source(self.items(), [0] * 10000, (), runner.Outcome(), False)
                li = self.mod.lines(src, **self.kw())
        else:
            src = Source(self.items(), [0] * 10000, (), runner.Outcome(), False)
            li = self.mod.lines(src, **self.kw())
        base = li
        got = []
        try:
            for st in stages:
                li = self.stage(li, st)
            for info, line in li:
                got.append(self.snap(info, line))
        except (Violation, HarnessError):
            raise
        except Exception as e:
            # all stages read one line at a time, except at the end
            return got, e, base.line_number - case["first"]
        return got, None, None

    def reference(self):
        """
        The contents by an independent model: [line number, text, column, indent, what was cut off before the text, what the last grep found], and the line number
        and column of the illegal dedent or unterminated quote that ends it.
        """
        case = self.case
        e = self.enc
        start = case["column"]
        items = [[n + case["first"], (l[0] if case["pairs"] else l), start, 0, e(""), None] for n, l in enumerate(self.items())]
        err = None
        def column(it, more):
            return start + len((it[4] + more).expandtabs(case["tab"]))
        def cut_before(it, pre):
            it[4] = it[4] + pre if it[1] else e("")
            it[2] = column(it, e(""))
        ws = (e(" "), e("\t"))
        other = tuple(map(e, ("x", "-", "ab")))
        def strip(line, seps, left):
            a = 0
            more = True
            while more and left:
                more = False
                for x in seps:
                    if line.startswith(x, a):
                        a += len(x); more = True
            rest = line[a:]
            more = True
            while more:
                more = False
                for x in seps:
                    if rest.endswith(x):
                        rest = rest[:-len(x)]; more = True
            return line[:a], rest
        for kind, arg in case["stages"]:
            out = []
            if kind == "comments" and arg:
                quotes, multi, esc = [(), ('"', "'"), ("'",), ()][arg], [(), (), ('"""',), ('"',)][arg], ["\\", "\\", "\\", ""][arg]
                tokens = set(quotes) | set(multi) | ({esc + q for q in quotes} | {esc + esc} if esc else set())
                tokens = sorted(map(e, tokens), key=lambda t: (-len(t), t))
                quotes, multi = tuple(map(e, quotes)), tuple(map(e, multi))
                markers = (e("#"), e("//"))
                quote = None
                for it in items:
                    line = it[1]
                    at = seg = 0
                    cut = None
                    while cut is None:
                        tok = None
                        while at < len(line):
                            tok = next((t for t in tokens if line.startswith(t, at)), None)
                            if tok:
                                break
                            at += 1
                        if tok and quote is None and tok not in quotes + multi or tok and quote is not None and tok != quote:
                            at += len(tok)
                            continue
                        if quote is None:
                            cut = min((i for i in (line.find(m, seg, at) for m in markers) if i >= 0), default=None)
                        if not tok or cut is not None:
                            break
                        if quote is None:
                            opened = it[0], column(it, line[:at])
                        quote = tok if quote is None else None
                        at += len(tok)
                        seg = at
                    if cut is not None:
                        it[1] = line[:cut]
                        cut_before(it, e(""))
                        self.out.stats["comment_cut_beside_quotes"] += bool(seg)
                    elif quote in quotes:
                        err = opened
                        break
                    out.append(it)
                else:
                    # (an error before the end of the input comes first)
                    if quote is not None and err is None:
                        err = opened
                items = out
                continue
            if kind == "sort":
                if err is not None:
                    return [], err
                items.sort(key=(lambda t: t[1]) if arg % 2 else (lambda t: (t[0] * 7) % 5), reverse=bool(arg // 2))
                continue
            if kind == "indent":
                stack, blank = [], []
                for it in items:
                    line = it[1]
                    cut = len(line) - len(line.lstrip())
                    if cut == len(line):
                        it[1] = line[:0]
                        cut_before(it, e(""))
                        blank.append(it)
                        continue
                    it[1] = line[cut:]
                    cut_before(it, line[:cut])
                    if it[2] == start:
                        stack = []
                    elif not stack or it[2] > stack[-1]:
                        stack.append(it[2])
                    elif it[2] in stack:
                        del stack[stack.index(it[2]) + 1:]
                    else:
                        err = it[0], it[2]
                        blank = []
                        break
                    for b in blank:
                        b[3] = len(stack)
                    out += blank
                    blank = []
                    it[3] = len(stack)
                    out.append(it)
                else:
                    if err is None:
                        for b in blank:
                            b[3] = 0
                        out += blank
                items = out
                continue
            for it in items:
                line = it[1]
                if kind in ("rstrip", "strip"):
                    pre, it[1] = strip(line, other if arg == 2 else ws, kind == "strip")
                    cut_before(it, pre)
                elif kind == "fcl":
                    if line.lstrip().startswith(tuple(map(e, [("#",), ("#", "//"), ("//",)][arg]))):
                        continue
                elif kind == "containing":
                    if (e("ab"[arg % 2]) in line) == bool(arg // 2):
                        continue
                elif kind == "grep":
                    found = True if arg % 2 else (e("a") in line or e("b") in line)
                    if found == bool(arg // 2):
                        continue
                    if arg // 2:
                        it[5] = None
                    else:
                        if arg % 2:
                            a, b = 0, len(line) - len(line.lstrip(e(" ")))
                            b += line.startswith(e("x"), b)
                        else:
                            a = min(i for i in (line.find(e("a")), line.find(e("b"))) if i >= 0)
                            b = a
                            while line[b:b + 1] in (e("a"), e("b")):
                                b += 1
                        if it[5] is not None:
                            self.out.probes["grep_after_grep"] += 1
                        it[5] = (a, b), line[a:b]
                elif kind == "comments":
                    at = [i for i in (line.find(e("#")), line.find(e("//"))) if i >= 0]
                    if at:
                        it[1] = line[:min(at)]
                        cut_before(it, e(""))
                elif kind == "tabs":
                    it[1] = line.expandtabs(case["tab"])
                elif kind == "empty":
                    if not line:
                        continue
                out.append(it)
            items = out
        return items, err

    def check_reference(self, full, exc):
        items, err = self.reference()
        self.out.stats["modelled"] += 1
        if (exc is None) != (err is None) or (err is not None and not isinstance(exc, SyntaxError)):
            raise Violation("wrong-contents", f"the pipeline over the complete input ended with {exc!r}; " + ("it has an illegal dedent or an unterminated quote" if err is not None else "nothing is wrong with it"))
        if err is not None:
            found = re.match(r"Line (-?\d+) column (-?\d+)\b", str(exc))
            if not found or tuple(map(int, found.groups())) != err:
                raise Violation("wrong-error-position", f"{exc!r} ended the pipeline over the complete input; what is wrong is on line {err[0]}, column {err[1]}")
            self.out.probes["error_position"] += 1
        got = [(s[2], s[0], s[7]) for s in full]
        want = [(i[0], i[1], i[3]) for i in items]
        if got != want:
            for n, (a, b) in enumerate(zip(got + [None], want + [None])):
                if a != b:
                    raise Violation("wrong-contents", f"item {n} over the complete input is (line number, text, indent) {a}, expected {b}")
        for s, i in zip(full, items):
            if s[0] and s[3] != i[2]:
                raise Violation("wrong-column", f"line {s[2]}: column {s[3]}, expected {i[2]}")
            if s[8] != i[5]:
                raise Violation("wrong-match", f"line {s[2]}: the match recorded is {s[8]}, the last grep it went through found {i[5]}")

    def determined(self):
        """For each line the whole pipeline delivers: after how many source lines it is determined (END: only by the end of the input)."""
        case = self.case
        det = {n: n + 1 for n in range(len(case["lines"]))}       # source line -> determined
        first = case["first"]
        stages = case["stages"]
        for k, st in enumerate(stages):
            if st[0] == "sort":
                det = {n: END for n in det}
            elif st[0] == "indent":
                inp, exc, at = self.complete(stages[:k])
                nxt = END
                for s in reversed(inp):
                    n = s[2] - first
                    if not s[0].strip():
                        det[n] = max(det[n], nxt)
                    else:
                        nxt = det[n]
        return det

    def check_own(self, snap, what):
        "The line's own number, original text and line end; nothing lost."
        case = self.case
        line, orig, number, column, leading, trailing, end, indent, m = snap
        n = number - case["first"]
        src = self.items()
        if not 0 <= n < len(src):
            raise Violation("wrong-number", f"{what}: line number {number}, the input has {len(src)} lines from {case['first']}")
        l, x = src[n] if case["pairs"] else (src[n], self.enc(""))
        if orig != l + x or end != x:
            raise Violation("wrong-line", f"{what}: line number {number} claims to be {orig!r} with end {end!r}, it is {l!r} {x!r}")
        if not any(s[0] == "tabs" for s in case["stages"]) and leading + line + trailing + end != orig:
            raise Violation("lost-text", f"{what}: {leading!r} + {line!r} + {trailing!r} + {end!r} is not {orig!r}")
        starts = case["column"] + len(leading.expandtabs(case["tab"]))
        if column != starts:
            raise Violation("wrong-column", f"{what}: line number {number} is {leading!r} + {line!r} and claims to start in column {column}, it starts in column {starts}")
        return n

    # -- one pipeline over a live source -------------------------------------------
    def live(self):
        case, out = self.case, self.out
        items = self.items()
        full, exc, exc_at = self.complete(case["stages"])
        if exc is not None:
            out.probes["input_rejected"] += 1
            if isinstance(exc, AssertionError):
                out.stats["assertion_on_complete_input"] += 1
        det = self.determined()
        src = Source(items, case["arrivals"], case["faults"], out, False)
        feed = as_generator(src) if case["gen"] else src
        li = self.mod.lines(feed, **self.kw())
        held = []
        ended = None
        due = 0
        first = case["first"]
        self.check_reference(full, exc)
        for n, s in enumerate(full):
            self.check_own(s, f"complete input, item {n}")
        try:
            for st in case["stages"]:
                li = self.stage(li, st)
            if src.pos:
                raise Violation("read-ahead", f"{src.pos} lines were read before the first was asked for")
            for info, line in li:
                k = len(held)
                s = self.snap(info, line)
                self.log.append((src.now, src.pos, s[2], repr(s[0])))
                if k >= len(full) or s != full[k]:
                    raise Violation("differs-from-complete-input", f"item {k} is {s!r}, over the complete input it is {full[k] if k < len(full) else 'not there'!r}")
                n = self.check_own(s, f"item {k}")
                due = max(due, det[n])
                if src.pos > due and due != END:
                    raise Violation("read-ahead", f"item {k} (line {s[2]}) was delivered at time {src.now} after reading {src.pos} lines; {due} determine it")
                if due == END and not src.ended:
                    out.probes["early_but_right"] += 1
                h = Held()
                h.info, h.line, h.snap = info, line, s
                held.append(h)
                out.stats["delivered"] += 1
                if case["stop"] is not None and len(held) >= case["stop"]:
                    out.faults["consumer_abandoned"] += 1
                    li.close() if hasattr(li, "close") else None
                    break
            else:
                ended = "end"
        except (Violation, HarnessError):
            raise
        except BaseException as e:
            if type(e).__module__ == "sim.runner":
                raise
            ended = e
        self.log.append(("ended", src.now, src.pos, repr(ended)))
        for k, h in enumerate(held):
            if self.snap(h.info, h.line) != h.snap:
                raise Violation("changed-after-delivery", f"item {k} was {h.snap!r} when delivered and is {self.snap(h.info, h.line)!r} now")
        if ended is None:
            return
        if src.failed is not None and ended is src.failed:
            # everything determined by what was supplied must have been delivered
            must = 0
            d = 0
            for s in full:
                d = max(d, det[s[2] - first])
                if d <= src.pos:
                    must += 1
                else:
                    break
            out.probes["failed_after_some"] += bool(must)
            if len(held) != must:
                raise Violation("withheld", f"the source failed after {src.pos} lines, which determine {must} items, but {len(held)} were delivered")
            return
        if src.failed is not None:
            raise Violation("failure-hidden", f"the source failed with {src.failed!r} but the pipeline ended with {ended!r}")
        if exc is None:
            if ended != "end":
                raise Violation("unexpected-exception", f"the pipeline ended with {ended!r}, over the complete input it does not")
        elif type(ended) is not type(exc) or str(ended) != str(exc):
            raise Violation("differs-from-complete-input", f"the pipeline ended with {ended!r}, over the complete input with {exc!r}")
        if len(held) != len(full):
            raise Violation("lost", f"{len(held)} items were delivered, over the complete input {len(full)}")

    # -- a source that fails transiently; the plain iterator is resumed ---------------------
    def resume(self):
        case, out = self.case, self.out
        items = self.items()
        src = Source(items, case["arrivals"], case["faults"], out, True)
        li = self.mod.lines(src, **self.kw())
        got = []
        stages = [s for s in case["stages"] if s[0] in ("tabs", "rstrip", "strip", "grep", "empty", "containing", "fcl")] if case["rebuild"] else []
        whole, exc, at = self.complete(stages)
        fails = 0
        for _ in range(10 * len(items) + 50):
            pipe = li
            for st in stages:
                pipe = self.stage(pipe, st)
            try:
                if stages:
                    for info, line in pipe:
                        got.append((info, line))
                    break
                got.append(next(pipe))
            except StopIteration:
                break
            except (Violation, HarnessError):
                raise
            except BaseException as e:
                if e is not src.failed:
                    raise Violation("failure-replaced", f"the source failed with {src.failed!r}, the iterator with {e!r}")
                fails += 1
                self.log.append(("failed", src.pos, type(e).__name__))
        else:
            raise Violation("no-progress", "the iterator does not end")
        out.probes["resumed"] += bool(fails and got)
        snaps = [self.snap(*g) for g in got]
        for n, s in enumerate(snaps):
            self.log.append((s[2], repr(s[0])))
            self.check_own(s, f"item {n}")
        if snaps != whole:
            for n, (a, b) in enumerate(zip(snaps + [None], whole + [None])):
                if a != b:
                    raise Violation("resumed-differs", f"after {fails} transient failures item {n} is {a!r}, expected {b!r}")

    # -- several consumers of one line iterator --------------------------------------
    def shared(self):
        case, out = self.case, self.out
        src = Source(self.items(), case["arrivals"], case["faults"], out, True)
        li = self.mod.lines(src, **self.kw())
        pipes = [li, self.mod.lines_convert_tabs_to_spaces(li), self.mod.lines_rstrip(li)]
        alive = [0, 1, 2]
        got = []
        for turn in case["turns"] + [0] * (len(case["lines"]) + len(case["faults"]) + 1):
            p = turn % 3
            try:
                info, line = next(pipes[p])
            except StopIteration:
                continue
            except (Violation, HarnessError):
                raise
            except BaseException as e:
                if e is not src.failed:
                    raise Violation("failure-replaced", f"the source failed with {src.failed!r}, the iterator with {e!r}")
                # a generator that failed has ended; build another one
                pipes[p] = [li, self.mod.lines_convert_tabs_to_spaces(li), self.mod.lines_rstrip(li)][p]
                continue
            got.append((info, line))
            s = self.snap(info, line)
            self.log.append((p, s[2], repr(s[0])))
            n = s[2] - case["first"]
            if n != len(got) - 1:
                raise Violation("wrong-number", f"line number {len(got) - 1 + case['first']} expected next, got {s[2]}")
            l = self.items()[n]
            l = l[0] + l[1] if case["pairs"] else l
            if s[1] != l:
                raise Violation("wrong-line", f"line {s[2]} claims to be {s[1]!r}, it is {l!r}")
        out.probes["shared"] += 1
        if len(got) != len(case["lines"]):
            raise Violation("lost", f"{len(got)} of {len(case['lines'])} lines were delivered to the three consumers together")

    def run(self):
        getattr(self, self.case["mode"])()


class C19(runner.Check):
    id = "C19"
    lists = (("lines",), ("stages",), ("faults",), ("turns",))
    real = ("big.text.lines, LineInfo and all ten lines_ modifiers; split_quoted_strings, multisplit and multistrip as they use them",)
    stubs = ("the source: arrival times, stalls and failures", "the consumer")
    time_unit = "simulated time units"
    runs = {"quick": 48000, "thorough": 1000000}
    required_probes = ("failed_after_some", "resumed", "shared", "input_rejected", "error_position", "grep_after_grep")
    assumptions = ("what a pipeline delivers over the complete input is the reference for its contents; numbers, original texts, line ends and conservation of text are checked independently",
                   "lines_sort needs the end of the input; lines_strip_indent needs the next line that is not blank to give a blank line its indent")
    rule = ("one case = 0-16 lines with arrival times, a pipeline of 0-5 modifiers, str or bytes, strings or pairs, and source failures (fatal or transient, 14 kinds) or a consumer that stops; "
            "every item's contents and the number of lines read when it is delivered are checked; non-trivial = something was delivered and a fault fired; distinct by event log")

    def gen(self, rng, index, tier):
        mode = rng.choice(["live", "live", "live", "live", "resume", "shared"])
        atoms = rng.sample(ATOMS, rng.choice([4, 7, 12])) + ["a", " "]
        if rng.random() < .5:
            atoms = [a for a in atoms if a not in ('"', "'", '"""')]
        style = rng.random()
        lines = []
        for _ in range(rng.choice([0, 1, 3, 6, 10, 16])):
            s = "".join(rng.choice(atoms) for _ in range(rng.choice([0, 1, 2, 4, 7])))
            if style > .85:
                # stripped in several goes, with tabs in between
                s = "".join(rng.choice(["x", "-", "ab", " ", "\t", "\t"]) for _ in range(rng.choice([1, 2, 3, 5]))) + s
            if style < .5:
                s = rng.choice(["", "", "  ", "    ", "      ", "\t"]) + s
            lines.append([s, rng.choice(ENDS[:5])])
        pairs = int(rng.random() < .6)
        text = int(pairs and rng.random() < .5)
        if text and lines:
            lines[-1][1] = ""
            # \r followed by an empty line ended by \n would be one line end
            for l in lines[:-1]:
                l[1] = "\n" if l[1] == "\r" else l[1]
        if text and not lines:
            text = 0
        kinds = ["rstrip", "strip", "fcl", "containing", "grep", "sort", "comments", "comments", "tabs", "indent", "indent", "indent", "empty"]
        stages = [[rng.choice(kinds), rng.randrange(4)] for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        if style > .85:
            stages = [[k, rng.choice([0, 1, 2, 2])] for k in rng.choices(["strip", "strip", "indent", "rstrip"], k=rng.choice([1, 2, 3, 4]))] + stages[:rng.choice([0, 0, 1])]
        for s in stages:
            if s[0] in ("rstrip", "strip", "fcl"):
                s[1] %= 3
        t = 0
        arrivals = []
        for _ in lines:
            t += rng.choice([0, 1, 1, 5, 100])
            arrivals.append(t)
        nf = rng.choice([0, 1, 1, 1, 3]) if mode == "live" else rng.choice([0, 1, 2, 5])
        faults = [[rng.randrange(len(lines) + 1), rng.choice(list(EXCS))] for _ in range(nf)]
        case = {"mode": mode, "lines": lines, "pairs": pairs, "text": text, "bytes": int(rng.random() < .3), "stages": stages, "arrivals": arrivals, "faults": faults,
                "gen": int(rng.random() < .3), "rebuild": int(rng.random() < .5), "stop": rng.randrange(1, 6) if mode == "live" and rng.random() < .1 else None,
                "first": rng.choice([1, 1, 0, 100]), "column": rng.choice([1, 1, 0, 5]), "tab": rng.choice([8, 8, 4]),
                "turns": [rng.randrange(3) for _ in range(20)]}
        if rng.random() < .006 and not text and lines and mode != "shared":
            lines[4:] = []
            arrivals[4:] = []
            case["times"] = rng.choice([20, 40, 70, 140, 270])
            case["grow"] = rng.choice([0, 0, 1])
        return case

    def run(self, case):
        out = runner.Outcome()
        try:
            World(case, out).run()
        except Violation as v:
            out.violation = (v.kind, v.detail)
        out.switches = []
        out.sim_time = max(case["arrivals"] or [0])
        out.steps = len(out.log)
        out.signature = runner.sig(out.log)
        out.nontrivial = bool(out.faults) and len(out.log) > 1
        return out
