"""
C20, C21: a worker splits a stream of text piece by piece and commits each
piece with the state it must carry; it is stopped at line and token boundaries
and crashes before or after commits; a new worker (with a freshly imported
library) goes on from what was committed.
"""
import re

from sim import runner, seams
from sim.kernel import Violation, HarnessError, Injected


def outcome(fn):
    try:
        return ("ok", fn())
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return ("raise", e)


# families of delimiters: open -> (close, escape, multiline)
FAMILIES = {
    "default": None,
    "brackets": {"(": (")", "", 1), "[": ("]", "", 1), "{": ("}", "", 1)},
    "angle": {"(": (")", "", 1), "<": (">", "", 1), '"': ('"', "\\", 1)},
    "long": {"(": (")", "", 1), "<<": (">>", "", 1), '"': ('"', "\\", 0), "|": ("|", "^", 1)},
    "words": {"begin": ("end", "", 1), "(": (")", "", 1), "`": ("`", "!", 1)},
    "comment": {"{": ("}", "", 1), "/*": ("*/", "~", 1), "'": ("'", "\\", 0)},
    "triple": {"(": (")", "", 1), '"': ('"', "\\", 0), '"""': ('"""', "\\", 1), "[": ("]", "", 1)},
    "prefix": {"<": (">", "", 1), "<<": (">>", "", 1), "'": ("'", "\\", 0)},
    "longescape": {"(": (")", "", 1), '"': ('"', "<esc>", 1), "[": ("]", "", 1)},
    "share": {"(": (")", "", 1), "[(": (")]", "", 1), '"': ('"', "\\", 0)},
    "buried": {"(": (")", "", 1), '"': ('"', "\\", 1), '<"<': ('>">', "", 1)},
    "onlyquotes": {'"': ('"', "\\", 0), "'": ("'", "\\", 1)},
}


def ref_delimiters(text, fam, stack, cuts=None):
    """
    Independent model: at each position only the tokens that mean something to
    the innermost open delimiter count, the longest first.
    Returns pieces, error kind or None, error position.  Adds to cuts the
    positions that are not inside a token, an escape or a line end.
    """
    cuts = set() if cuts is None else cuts
    fam = fam or {"(": (")", "", 1), "[": ("]", "", 1), "{": ("}", "", 1), "'": ("'", "\\", 0), '"': ('"', "\\", 0)}
    stack = list(stack)
    pieces = []
    i = start = 0
    closers = {v[0] for v in fam.values()}
    escapes = {v[1] for v in fam.values() if v[1]}
    allt = sorted(set(fam) | closers | escapes, key=len, reverse=True)
    while i < len(text):
        if i and text[i - 1:i + 1] != "\r\n":
            cuts.add(i)
        top = fam[stack[-1]] if stack else None
        if top and top[1]:
            tok = [t for t in sorted((top[0], top[1]), key=len, reverse=True) if text.startswith(t, i)]
            if tok and tok[0] == top[0]:
                pieces.append((text[start:i], "", top[0]))
                i += len(top[0])
                start = i
                stack.pop()
            elif tok:
                i += len(top[1])
                if i >= len(text):
                    return pieces, "escape", i
                i += 1
            elif not top[2] and text[i] in "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029":
                return pieces, "newline", i
            else:
                i += 1
            continue
        tok = [t for t in allt if text.startswith(t, i)]
        if not tok:
            i += 1
            continue
        t = tok[0]
        if t not in fam and top and t.startswith(top[0]):
            t = top[0]
        if t in fam:
            pieces.append((text[start:i], t, ""))
            stack.append(t)
        elif top and t == top[0]:
            pieces.append((text[start:i], "", t))
            stack.pop()
        else:
            return pieces, "illegal", i
        i += len(t)
        start = i
    if start < len(text):
        pieces.append((text[start:], "", ""))
    return pieces, None, None


def ref_quotes(text, quotes, multi, escape, state, cuts=None):
    "Independent model of split_quoted_strings.  Returns pieces and whether a SyntaxError ends them."
    cuts = set() if cuts is None else cuts
    toks = sorted(set(quotes) | set(multi) | ({escape + q for q in quotes} | {escape * 2} if escape else set()), key=len, reverse=True)
    every = set(quotes) | set(multi)
    pieces = []
    quote = state
    lead = "" if state else None
    i = start = 0
    def bad(t):
        return quote and quote not in multi and any(c in t for c in "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029")
    while i < len(text):
        if i and text[i - 1:i + 1] != "\r\n":
            cuts.add(i)
        t = next((t for t in toks if text.startswith(t, i)), None)
        if t is None:
            i += 1
            continue
        if not quote and t in every:
            if i > start:
                pieces.append(("", text[start:i], ""))
            quote, lead = t, t
            start = i + len(t)
        elif quote and t == quote:
            if bad(text[start:i]):
                return pieces, True
            pieces.append((lead, text[start:i], t))
            quote = lead = ""
            start = i + len(t)
        i += len(t)
    rest = text[start:]
    if quote:
        if bad(rest):
            return pieces, True
        if rest or lead:
            pieces.append((lead, rest, ""))
    elif rest:
        pieces.append(("", rest, ""))
    return pieces, False


class World:
    def __init__(self, case, out):
        self.case, self.out, self.log = case, out, out.log
        self.mod = seams.fresh("text")
        self.bytes = case["bytes"]
        self.text = "".join(case["text"])

    def enc(self, s):
        return s.encode("latin-1") if self.bytes else s

    def dec(self, p):
        return tuple(x.decode("latin-1") if self.bytes else x for x in p)

    def line_boundaries(self):
        t = self.text
        return [i for i in range(1, len(t)) if t[i - 1] == "\n" or (t[i - 1] == "\r" and t[i] != "\n")]

    def stops(self, cuts):
        "Where the worker is stopped: some line ends, some places inside lines."
        bounds = self.line_boundaries()
        cuts = sorted(cuts)
        return sorted({b[i % len(b)] for b, s in ((bounds, self.case["stops"]), (cuts, self.case["cuts"])) if b for i in s})


class Crash(Exception):
    pass


class Delims(World):
    def delims(self):
        fam = FAMILIES[self.case["family"]]
        if fam is None:
            return None
        e = self.enc
        D = self.mod.Delimiter
        return {e(o): D(e(c), escape=e(x), multiline=bool(m), quoting=bool(x)) for o, (c, x, m) in fam.items()}

    def split(self, text, stack, encoded=False):
        if not encoded:
            stack = [self.enc(s) for s in stack]
        how = self.case["state_as"]
        if how == "tuple":
            stack = tuple(stack)
        elif how == "iter" and stack:
            stack = iter(stack)
        elif how == "str" and all(len(s) == 1 for s in stack):
            stack = self.enc("").join(stack)
        d = self.delims()
        if d is None:
            if self.case["explicit"]:
                return self.mod.split_delimiters(self.enc(text), None, state=stack)
            return self.mod.split_delimiters(self.enc(text), state=stack)
        return self.mod.split_delimiters(self.enc(text), d, state=stack)

    def place(self, e):
        m = re.search(r"index (\d+)", str(e))
        return int(m.group(1)) if m else None

    def run(self):
        case, out = self.case, self.out
        text = self.text
        # one uninterrupted run
        whole = []
        err = None
        try:
            for p in self.split(text, case["stack"]):
                whole.append(self.dec(p))
        except SyntaxError as e:
            err = e
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation("unexpected-exception", f"split_delimiters({text!r}): {type(e).__name__}: {e}")
        joined = "".join("".join(p) for p in whole)
        if err is None and joined != text:
            raise Violation("lost-text", f"the pieces of {text!r} join to {joined!r}")
        if not text.startswith(joined):
            raise Violation("lost-text", f"the pieces of {text!r} up to the error join to {joined!r}")
        for t, o, c in whole:
            if (o and c) or not (t or o or c):
                raise Violation("bad-piece", f"{(t, o, c)!r} from {text!r}")
        cuts = set()
        ref, kind, at = ref_delimiters(text, FAMILIES[case["family"]], case["stack"], cuts)
        if whole != ref or (err is None) != (kind is None):
            raise Violation("wrong-pieces", f"{text!r} from state {case['stack']} gave {whole!r} and {err!r}, expected {ref!r} and {kind}")
        if err is not None:
            out.probes["rejected_" + kind] += 1
            place = self.place(err)
            if place is not None and kind != "escape" and place != at:
                raise Violation("wrong-place", f"{text!r} from state {case['stack']}: {err}; the error is at index {at}")
        # the worker, stopped, crashed and resumed
        stops = self.stops(cuts)
        crashes = list(case["crashes"])
        done = []
        offset = 0
        stack = list(case["stack"])
        count = 0
        failed = None
        for _ in range(len(text) + len(crashes) + len(stops) + 5):
            if offset >= len(text):
                break
            end = next((s for s in stops if s > offset), len(text))
            seg = text[offset:end]
            self.log.append(("worker", offset, end, tuple(stack)))
            base = offset
            try:
                # the documented idiom: a list used as the stack is passed, and then kept up to date
                live = [self.enc(s) for s in stack]
                for p in self.split(seg, live, encoded=True):
                    t, o, c = self.dec(p)
                    if live != [self.enc(s) for s in stack]:
                        raise Violation("state-changed", f"splitting {seg!r} changed the list of open delimiters from {stack} to {live}")
                    if o:
                        live.append(p[1])
                    elif c:
                        if not stack:
                            raise Violation("wrong-pieces", f"a closing delimiter with nothing open: {done}")
                        live.pop()
                    count += 1
                    crash = next((x for x in crashes if x[0] == count), None)
                    if crash and crash[1] == "before":
                        raise Crash
                    done.append((t, o, c))
                    offset += len(t) + len(o) + len(c)
                    if o:
                        stack.append(o)
                    if c:
                        stack.pop()
                    if crash:
                        raise Crash
                if offset < end:
                    raise Violation("lost-text", f"segment {seg!r} gave only {text[base:offset]!r}")
                out.stats["segments"] += 1
                out.probes["resumed_inside_delimiters"] += bool(stack) and offset < len(text)
                out.probes["resumed_inside_quotes"] += bool(stack and offset < len(text) and (FAMILIES[case["family"]] or {'"': ("", "x"), "'": ("", "x")}).get(stack[-1], ("", ""))[1])
            except Crash:
                out.faults["crash"] += 1
                crashes = [x for x in crashes if x[0] != count]
                if case["fresh"]:
                    self.mod = seams.fresh("text")
                continue
            except SyntaxError as e:
                failed = e
                break
            except (Violation, HarnessError):
                raise
            except Exception as e:
                raise Violation("unexpected-exception", f"split_delimiters({seg!r}, state={stack}): {type(e).__name__}: {e}")
            if offset > end:
                raise Violation("invented-text", f"segment {seg!r} gave {done[-3:]}")
            if stops:
                out.faults["suspended"] += 1
                if case["fresh"]:
                    self.mod = seams.fresh("text")
        else:
            raise Violation("no-progress", "the worker does not finish")
        a, b = self.merge(whole), self.merge(done)
        how = f"{text!r} stopped at {stops}"
        if failed is None and err is None:
            if a != b:
                raise Violation("resumed-differs", f"{how}: pieces {b!r}, uninterrupted {a!r}")
            return
        if failed is None or err is None:
            raise Violation("resumed-differs", f"{how}: resumed ended with {failed!r}, uninterrupted with {err!r}")
        # text before the error that no piece covers yet may have been yielded at a stop
        if len(b) == len(a) + 1 and not (b[-1][1] or b[-1][2]) and text.startswith("".join("".join(p) for p in b)):
            b = b[:-1]
        if a != b:
            raise Violation("resumed-differs", f"{how}: pieces before the error {b!r}, uninterrupted {a!r}")
        p, q = self.place(err), self.place(failed)
        if p is not None and q is not None and kind != "escape":
            out.probes["error_places_compared"] += 1
            if p != q + base:
                raise Violation("wrong-place", f"{how}: resumed at {base}: {failed}; uninterrupted: {err}")
            said = [str(x).partition(str(y))[2] for x, y in ((err, p), (failed, q))]
            if said[0] != said[1]:
                raise Violation("error-differs", f"{how}: resumed at {base}: {failed}; uninterrupted: {err}")

    def merge(self, pieces):
        out = []
        held = ""
        for t, o, c in pieces:
            held += t
            if o or c:
                out.append((held, o, c))
                held = ""
        if held:
            out.append((held, "", ""))
        return out


class Quotes(World):
    def split(self, text, state):
        c = self.case
        e = self.enc
        kw = {}
        if c["multi"]:
            kw["multiline_quotes"] = tuple(map(e, c["multi"]))
        if c["escape"] != "\\":
            kw["escape"] = e(c["escape"])
        if state or c["explicit"]:
            kw["state"] = e(state)
        if c["quotes"] == ['"', "'"] and not c["explicit"]:
            return self.mod.split_quoted_strings(e(text), **kw)
        return self.mod.split_quoted_strings(e(text), tuple(map(e, c["quotes"])), **kw)

    def segments(self, pieces, state, into):
        "Append to into [quote, text, closed] and return the quote in force at the end."
        for l, t, r in pieces:
            if l or not state:
                into.append([l, t, bool(r)])
                state = "" if r else l
            else:
                # goes on inside the quote carried in
                into[-1][1] += t
                into[-1][2] = bool(r)
                if r:
                    state = ""
        return state

    def run(self):
        case, out = self.case, self.out
        text = self.text
        quotes, multi, esc = case["quotes"], case["multi"], case["escape"]
        whole = []
        err = None
        try:
            for p in self.split(text, ""):
                whole.append(self.dec(p))
        except SyntaxError as e:
            err = e
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation("unexpected-exception", f"split_quoted_strings({text!r}): {type(e).__name__}: {e}")
        joined = "".join("".join(p) for p in whole)
        if (err is None and joined != text) or not text.startswith(joined):
            raise Violation("lost-text", f"the pieces of {text!r} join to {joined!r}")
        cuts = set()
        ref, bad = ref_quotes(text, quotes, multi, esc, "", cuts)
        if whole != ref or bad != (err is not None):
            raise Violation("wrong-pieces", f"{text!r} gave {whole!r} and {err!r}, expected {ref!r}{' and a SyntaxError' if bad else ''}")
        out.probes["rejected"] += bad
        stops = self.stops(cuts)
        crashes = list(case["crashes"])
        # durable: offset, quote in force, segments
        offset, quote, segs = 0, "", []
        failed = None
        n = 0
        for _ in range(2 * len(stops) + len(crashes) + 4):
            if offset >= len(text):
                break
            end = next((s for s in stops if s > offset), len(text))
            seg = text[offset:end]
            n += 1
            got = []
            self.log.append(("worker", offset, end, quote))
            crash = next((x for x in crashes if x[0] == n), None)
            expected, fails = ref_quotes(seg, quotes, multi, esc, quote)
            try:
                for p in self.split(seg, quote):
                    got.append(self.dec(p))
                    if crash and len(got) >= crash[1]:
                        raise Crash
            except Crash:
                # nothing of this segment was committed
                out.faults["crash"] += 1
                if case["fresh"]:
                    self.mod = seams.fresh("text")
                continue
            except SyntaxError as e:
                if got != expected or not fails:
                    raise Violation("wrong-pieces", f"{seg!r} from state {quote!r} gave {got!r} and {e!r}, expected {expected!r}{' and a SyntaxError' if fails else ''}")
                out.probes["rejected_inside_resumed_quotes"] += bool(quote)
                failed = e
                self.segments(got, quote, segs)
                break
            except (Violation, HarnessError):
                raise
            except Exception as e:
                raise Violation("unexpected-exception", f"split_quoted_strings({seg!r}, state={quote!r}): {type(e).__name__}: {e}")
            if "".join("".join(p) for p in got) != seg:
                raise Violation("lost-text", f"the pieces of {seg!r} from state {quote!r} join to {''.join(''.join(p) for p in got)!r}")
            if quote and got and got[0][0]:
                raise Violation("wrong-pieces", f"resumed inside {quote!r}, the first piece of {seg!r} is {got[0]!r}")
            if got != expected or fails:
                raise Violation("wrong-pieces", f"{seg!r} from state {quote!r} gave {got!r}, expected {expected!r}{' and a SyntaxError' if fails else ''}")
            out.probes["resumed_before_escape"] += bool(quote and esc and quote not in multi and any(esc + quote in t for _, t, _ in got[:1]))
            quote = self.segments(got, quote, segs)
            offset = end
            if offset < len(text):
                out.faults["suspended"] += 1
                out.probes["resumed_inside_quotes"] += bool(quote)
                if case["fresh"]:
                    self.mod = seams.fresh("text")
        else:
            raise Violation("no-progress", "the worker does not finish")
        a = []
        self.segments(whole, "", a)
        how = f"{text!r} stopped at {stops}"
        if (failed is None) != (err is None):
            raise Violation("resumed-differs", f"{how}: resumed ended with {failed!r}, uninterrupted with {err!r}")
        a, b = self.merge(a), self.merge(segs)
        # text before the error that no piece covers yet may have been yielded at a stop
        if err is not None and len(b) == len(a) + 1 and not b[-1][2]:
            b = b[:-1]
        if a != b:
            raise Violation("resumed-differs", f"{how}: {b!r}, uninterrupted {a!r}")

    def merge(self, segs):
        out = []
        for q, t, c in segs:
            if out and not q and not out[-1][0]:
                out[-1][1] += t
            else:
                out.append([q, t, c])
        return out


class _Resume(runner.Check):
    lists = (("text",), ("stops",), ("cuts",), ("crashes",), ("stack",))
    stubs = ("the worker, its crashes and its durable state",)
    time_unit = "segments"
    runs = {"quick": 60000, "thorough": 1200000}
    world = None
    rule = ("one case = a text of 0-40 tokens and line ends over one family of delimiters or quotes, 0-6 line ends and 0-5 places inside lines at which the worker is stopped, 0-4 crashes before or after a commit; "
            "the committed pieces are compared with one uninterrupted run and with an independent model; non-trivial = stopped or crashed at least once; distinct by text and event log")

    def run(self, case):
        out = runner.Outcome()
        w = self.world(case, out)
        try:
            w.run()
        except Violation as v:
            out.violation = (v.kind, v.detail)
        out.switches = []
        out.steps = len(out.log)
        out.sim_time = len(out.log)
        out.log.insert(0, w.text)
        out.signature = runner.sig((case["text"], out.log, case.get("family"), case.get("quotes"), case.get("multi"), case.get("escape")))
        out.nontrivial = bool(out.faults)
        return out


class C20(_Resume):
    id = "C20"
    world = Delims
    real = ("big.text.split_delimiters, Delimiter, multisplit as it uses it",)
    assumptions = ("delimiters contain no line ends", "a delimiter that is a prefix of another, or shares characters with one, follows the rules documented in the source: the longest token wins unless it is illegal and starts with the closing delimiter awaited")
    required_probes = ("resumed_inside_delimiters", "resumed_inside_quotes", "rejected_newline", "rejected_illegal", "error_places_compared")

    def gen(self, rng, index, tier):
        fam = rng.choice(list(FAMILIES))
        f = FAMILIES[fam] or FAMILIES["brackets"] | {"'": ("'", "\\", 0), '"': ('"', "\\", 0)}
        toks = list(f) + [v[0] for v in f.values()] + [v[1] for v in f.values() if v[1]]
        plain = ["a", "bc", " ", "x\u00e9", "e", "<", "-"]
        nl = ["\n", "\n", "\r\n", "\r"]
        r = rng.random()
        text = []
        stack = []
        n = rng.choice([0, 2, 5, 10, 20, 40])
        for _ in range(n):
            q = rng.random()
            top = f[stack[-1]] if stack else None
            if q < .3:
                text.append(rng.choice(plain))
            elif q < .45:
                if top and top[1] and not top[2] and rng.random() < .93:
                    text.append(top[0]); stack.pop()
                text.append(rng.choice(nl))
            elif q < .48 and r < .5:
                text.append(rng.choice(toks))
            elif top and top[1]:
                # inside quotes: escapes, foreign tokens, the close
                k = rng.random()
                if k < .25:
                    text += [top[1], rng.choice(plain + toks + nl)]
                elif k < .6:
                    t = rng.choice(toks)
                    if top[0] not in t and top[1] not in t:
                        text.append(t)
                else:
                    text.append(top[0]); stack.pop()
            elif top and q < .75:
                text.append(top[0]); stack.pop()
            else:
                o = rng.choice(list(f))
                text.append(o); stack.append(o)
        if rng.random() < .005:
            # long, or deeply nested
            if rng.random() < .5 and not stack:
                text = text * (rng.choice([40, 140, 270, 520]) // (len(text) + 1) + 1)
            else:
                k = rng.choice([20, 40, 70, 140, 270])
                o = rng.choice([o for o in f if not f[o][1]] or list(f))
                if not f[o][1]:
                    text = [o] * k + (text if not stack else []) + [f[o][0]] * k
        # initial state
        init = []
        if rng.random() < .2:
            for _ in range(rng.randint(1, 2)):
                o = rng.choice(list(f))
                init.append(o)
                if f[o][1]:
                    break
        return {"family": fam, "text": text, "stack": init, "stops": [rng.randrange(30) for _ in range(rng.choice([0, 1, 2, 3, 6]))],
                "cuts": [rng.randrange(200) for _ in range(rng.choice([0, 0, 1, 2, 5]))],
                "crashes": [[rng.randrange(1, 20), rng.choice(["before", "after"])] for _ in range(rng.choice([0, 0, 1, 2, 4]))],
                "bytes": int(rng.random() < .3), "state_as": rng.choice(["list", "tuple", "iter", "str"]), "explicit": rng.randrange(2), "fresh": int(rng.random() < .1)}


class C21(_Resume):
    id = "C21"
    world = Quotes
    real = ("big.text.split_quoted_strings, multisplit as it uses it",)
    assumptions = ("quotes contain no line ends",)
    required_probes = ("resumed_inside_quotes", "rejected", "rejected_inside_resumed_quotes", "resumed_before_escape")

    def gen(self, rng, index, tier):
        quotes, multi = rng.choice([(['"', "'"], []), (['"', "'"], ['"""']), (["'"], ['"""', "`"]), (['"'], ["'''", '"""']), ([], ['"', "'"]), ([], ['"""']), (["<q>", '"'], ["|"])])
        esc = rng.choice(["\\", "\\", "\\", "", "^"])
        toks = quotes + multi
        plain = ["a", "b c", " ", "\u00e9", "x"]
        nl = ["\n", "\n", "\r\n", "\r"]
        text = []
        cur = ""
        for _ in range(rng.choice([0, 2, 5, 10, 20, 40])):
            q = rng.random()
            if q < .35:
                text.append(rng.choice(plain))
            elif q < .55:
                if cur in quotes and cur and rng.random() < .93:
                    text.append(cur); cur = ""
                text.append(rng.choice(nl))
            elif q < .65 and esc:
                text += [esc, rng.choice(toks + [esc, "a", "\n"] if cur not in quotes else toks + [esc, "a"])]
            elif q < .7:
                text.append(rng.choice(toks))
            elif cur:
                text.append(cur); cur = ""
            else:
                cur = rng.choice(toks)
                text.append(cur)
        if rng.random() < .005 and not cur:
            text = text * (rng.choice([40, 140, 270, 520]) // (len(text) + 1) + 1)
        return {"text": text, "quotes": quotes, "multi": multi, "escape": esc, "stops": [rng.randrange(30) for _ in range(rng.choice([0, 1, 2, 3, 6]))],
                "cuts": [rng.randrange(200) for _ in range(rng.choice([0, 0, 1, 2, 5]))],
                "crashes": [[rng.randrange(1, 8), rng.randrange(1, 4)] for _ in range(rng.choice([0, 0, 1, 2, 4]))],
                "bytes": int(rng.random() < .3), "explicit": rng.randrange(2), "fresh": int(rng.random() < .1)}
