"""
C27: grep and fgrep on simulated files, whose reads are split, interrupted and
made to fail, and which another process may append to meanwhile.
"""
import builtins
import errno
import io
import os
import pathlib
import re

from sim import runner, seams, fs
from sim.kernel import Violation, HarnessError


class SimRaw(io.RawIOBase):
    "A file whose reads follow a plan."
    def __init__(self, world, name):
        self.world = world
        self.pos = 0
        self.name = name
        self.mode = "rb"
        self.delivered = bytearray()
        self.eof = False
        self.fd = None
        world.raws.append(self)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, n, whence=0):
        self.pos = n if whence == 0 else self.pos + n if whence == 1 else len(self.world.content) + n
        self.delivered = bytearray(self.world.content[:self.pos])
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, *a):
        raise io.UnsupportedOperation("truncate")

    def fileno(self):
        # (only good for looking at the file's facts)
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.fd is None:
            self.fd = os.open(self.name, os.O_RDONLY)
            self.world.looked.add(self.fd)
        return self.fd

    def close(self):
        if self.fd is not None:
            fd, self.fd = self.fd, None
            self.world.looked.discard(fd)
            os.close(fd)
        super().close()

    def isatty(self):
        return False

    def readinto(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        w = self.world
        n = w.reads
        w.reads += 1
        if w.reads > 5000:
            raise Violation("no-progress", "5000 reads of one file")
        what = w.plan.get(n)
        if what == "EINTR":
            w.out.faults["EINTR"] += 1
            raise InterruptedError(errno.EINTR, "Interrupted system call")
        if what in ("EIO", "ESTALE", "EACCES"):
            w.out.faults["read_" + what] += 1
            w.failed = fs.oserror(what, self.name)
            raise w.failed
        if self.eof:
            # whoever reads on after the end (line by line, say) may or may not notice that the file has grown
            return 0
        if isinstance(what, list):
            # another process appends
            w.content += what[1].encode("latin-1")
            w.out.faults["appended_meanwhile"] += 1
        size = len(b)
        chunk = w.chunks[n % len(w.chunks)] if w.chunks else size
        k = min(size, chunk, len(w.content) - self.pos)
        if k < min(size, len(w.content) - self.pos):
            w.out.faults["short_read"] += 1
        b[:k] = w.content[self.pos:self.pos + k]
        self.delivered += w.content[self.pos:self.pos + k]
        self.pos += k
        if k == 0 and size:
            self.eof = True
        return k


class World:
    def __init__(self, check, case, out, mod):
        self.check, self.case, self.out = check, case, out
        self.mod = mod
        # some files are big
        self.content = (case["content"] * case.get("times", 1)).encode(case["write_encoding"], "surrogateescape")
        self.plan = {int(k): v for k, v in case["plan"]}
        self.chunks = case["chunks"]
        self.reads = 0
        self.raws = []
        self.fds = []
        self.looked = set()
        self.failed = None
        self.open_failed = None
        self.name = os.path.join(check.run_dir, "f")

    def ours(self, p):
        try:
            return os.fsdecode(p) == self.name
        except TypeError:
            return False

    def open_(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.ours(file):
            return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if set(mode) & set("wax+"):
            raise Violation("not-read-only", f"the file was opened with mode {mode!r}")
        if self.case["open_error"] and len(self.raws) == 0:
            self.out.faults["open_" + self.case["open_error"]] += 1
            self.open_failed = fs.oserror(self.case["open_error"], self.name)
            raise self.open_failed
        if "b" in mode and encoding is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        raw = SimRaw(self, self.name)
        if "b" in mode:
            if buffering == 0:
                return raw
            return io.BufferedReader(raw, buffering if buffering > 1 else self.case["buffer"])
        buffer = io.BufferedReader(raw, buffering if buffering > 1 else self.case["buffer"])
        text = io.TextIOWrapper(buffer, encoding or "utf-8", errors, newline)
        text.mode = mode
        return text

    def call(self, name, real, a, kw):
        if name == "fopen":
            return self.open_(*a, **kw)
        if name == "open" and a and self.ours(a[0]):
            fd = real(*a, **kw)
            self.fds.append(fd)
            return fd
        if name in ("stat", "fstat", "lstat") and a and (a[0] in self.looked if isinstance(a[0], int) else self.ours(a[0])):
            # some files do not know their size (pipes, /proc), and it may be another one by the time the file is read
            st = real(*a, **kw)
            self.out.faults["size_looked_at"] += 1
            return os.stat_result(st[:6] + (0 if self.case.get("sizeless") else len(self.content),) + st[7:10], {k: getattr(st, k) for k in ("st_atime", "st_mtime", "st_ctime", "st_atime_ns", "st_mtime_ns", "st_ctime_ns", "st_blksize", "st_blocks", "st_rdev")})
        return real(*a, **kw)

    def run(self):
        case, out = self.case, self.out
        b = case["bytes"]
        p = self.name
        if case["as"] == "path":
            p = pathlib.Path(p)
        elif case["as"] == "bytes":
            p = os.fsencode(p)
        needle = case["needle"].encode("utf-8") if b else case["needle"]
        with open(self.name, "wb") as f:
            f.write(self.content)
        os.utime(self.name, ns=(case["stamp"],) * 2)
        kw = {}
        if case["encoding"]:
            kw["encoding"] = case["encoding"]
        if case["enumerate"]:
            kw["enumerate"] = True
        if case["grep"]:
            if case["compiled"]:
                needle = re.compile(needle, case["flags"])
            elif case["flags"]:
                kw["flags"] = case["flags"]
        elif case["insensitive"]:
            kw["case_insensitive"] = True
        fn = self.mod.grep if case["grep"] else self.mod.fgrep
        err = got = None
        patched = fs.Patched(self.call)
        patched.real["fstat"] = os.fstat
        self.real_open = patched.real_open
        with patched:
            try:
                got = fn(p, needle, **kw)
            except (Violation, HarnessError):
                raise
            except Exception as e:
                err = e
        what = f"{'grep' if case['grep'] else 'fgrep'}({case['needle']!r}, {kw})"
        out.log.append((what, got if err is None else f"{type(err).__name__}: {str(err).replace(self.name, 'f')}", self.reads))
        out.stats["searches"] += 1
        out.steps += self.reads
        out.sim_time = out.steps
        for r in self.raws:
            if not r.closed:
                raise Violation("not-closed", f"{what} left the file open ({'raised ' + type(err).__name__ if err else 'returned'})")
        for fd in self.fds:
            try:
                os.fstat(fd)
            except OSError:
                continue
            raise Violation("not-closed", f"{what} left the file open ({'raised ' + type(err).__name__ if err else 'returned'})")
        # what should have happened
        injected = self.failed or self.open_failed
        if injected is not None:
            out.probes["error_reached"] += 1
            if err is None:
                raise Violation("hidden-error", f"{what} returned {got!r} although {injected!r} was raised while reading")
            if not isinstance(err, OSError) or err.errno != injected.errno:
                raise Violation("wrong-exception", f"{what}: {injected!r} became {err!r}")
            return
        if b and case["encoding"]:
            if not isinstance(err, ValueError):
                raise Violation("wrong-exception", f"{what} with bytes and an encoding gave {err!r}, {got!r}")
            return
        if self.raws:
            data = bytes(self.raws[-1].delivered)
            if len(data) < len(self.content) and not self.raws[-1].eof and err is None:
                # nothing says how it must be read, only what the answer is
                out.probes["not_read_to_the_end"] += 1
                data = self.content
        else:
            data = self.content
        if not b:
            try:
                text = data.decode(case["encoding"] or "utf-8")
            except UnicodeError:
                out.probes["undecodable"] += 1
                if not isinstance(err, UnicodeError):
                    raise Violation("wrong-exception", f"{what} on undecodable content gave {err!r}, {got!r}")
                return
            text = text.replace("\r\n", "\n").replace("\r", "\n")
            lines = text.split("\n")
        else:
            lines = data.split(b"\n")
        if err is not None:
            raise Violation("unexpected-exception", f"{what} raised {err!r}")
        want = []
        n = needle
        for i, line in enumerate(lines, 1):
            if case["grep"]:
                hit = re.search(n, line) if case["compiled"] else re.search(n, line, case["flags"])
            elif case["insensitive"]:
                hit = n.lower() in line.lower()
            else:
                hit = n in line
            if hit:
                want.append((i, line) if case["enumerate"] else line)
        if case["enumerate"]:
            got = [tuple(g) for g in got]
        else:
            got = list(got)
        out.probes["found"] += bool(want)
        if got != want:
            raise Violation("wrong-lines", f"{what} on {data!r} gave {got!r}, expected {want!r}")


class C27(runner.Check):
    id = "C27"
    needs_scratch = True
    lists = (("then",), ("plan",), ("chunks",))
    scratch = run_dir = None
    real = ("big.file.grep, big.file.fgrep", "the buffering and decoding layers of io")
    stubs = ("the raw file: reads that are short, interrupted or fail, content that grows meanwhile", "failing open")
    runs = {"quick": 120000, "thorough": 2500000}
    time_unit = "reads"
    rule = ("one case = a file of 0-400 characters with all kinds of line ends, in one of several encodings, a pattern or text, all options, a plan of read sizes, interruptions, errors and concurrent appends, 1-4 searches of it that differ in some way, the file written anew in between (with another time stamp or the same); "
            "each compared with a search of the bytes that were delivered; non-trivial = some fault or short read; distinct by plan and outcome")
    assumptions = ("the file is read through open(), pathlib or os.open",)
    required_probes = ("error_reached", "undecodable", "found", "searched_again", "other_content_same_stamp")

    def setup(self):
        self.run_dir = os.path.join(self.scratch, "w")
        seams.fresh("file")
        # every worker has its own directory under the same name
        self.run_dir = os.path.join(self.scratch, f"w{os.getpid()}")
        fs.drop_privileges()
        os.mkdir(self.run_dir)
        os.chdir(self.run_dir)

    def gen(self, rng, index, tier):
        b = int(rng.random() < .4)
        enc = rng.choice([None, None, "utf-8", "latin-1", "utf-16", "ascii", "utf-8-sig"]) if not b else (None if rng.random() < .95 else "utf-8")
        words = ["a", "b", "ab", "A", "AB", "x y", "\t", " ", "\u00e9", "\u00df", "1", ".", "foo", "Foo", "end"]
        if enc not in ("latin-1", "ascii"):
            words += ["\u0130", "\u03a3", "\u03c3", "\u2028", "\U0001f600", "\u4e2d"]
        words += ["\x0b", "\x0c", "\x1c", "\x85"] if rng.random() < .3 else []
        ends = rng.choice([["\n"], ["\n", "\r\n"], ["\n", "\r\n", "\r"], ["\r"]])
        n = rng.choice([0, 1, 5, 20, 60, 120])
        content = "".join(rng.choice(ends) if rng.random() < .35 else rng.choice(words) for _ in range(n))
        write = enc or "utf-8"
        if enc == "ascii":
            content = "".join(c if ord(c) < 128 else "?" for c in content)
        if enc == "latin-1":
            content = "".join(c if ord(c) < 256 else "?" for c in content)
        if rng.random() < .08 and not b and enc in (None, "utf-8", "ascii"):
            # not valid in its encoding
            i = rng.randrange(len(content) + 1)
            content = content[:i] + "\udcff" + content[i:]
        grep = rng.randrange(2)
        if grep:
            needle = rng.choice(["a", "^a", "b$", "", "a|b", "(a)(b)?", "\\d", "\\s", "a.b", "^$", "[A-Z]", "foo", "(?i)ab", "o+", "\\Z", "\\u00e9"] if not b else
                                ["a", "^a", "b$", "", "a|b", "(a)(b)?", "\\d", "\\s", "a.b", "^$", "[A-Z]", "foo", "(?i)ab", "o+", "\\Z"])
        else:
            needle = rng.choice(["a", "b", "ab", "AB", "", " ", "\u00df", "\u0130", "\u03a3", "\u03c3", "foo", "\r", "x y", "nowhere", "i"])
        chunks = rng.choice([[], [1], [1, 2, 3], [7], [rng.randrange(1, 40) for _ in range(5)], [4096]])
        plan = []
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            r = rng.random()
            at = rng.randrange(0, rng.choice([2, 4, 20, 60]))
            plan.append([at, "EINTR" if r < .4 else rng.choice(["EIO", "ESTALE"]) if r < .7 else ["append", rng.choice(["a\n", "foo", "\nb", "x", "\r\nab\r\n"])]])
        if not b and write in ("utf-16",):
            plan = [p for p in plan if not isinstance(p[1], list)]
        case = {"content": content, "write_encoding": write, "encoding": enc, "bytes": b, "needle": needle, "grep": grep, "compiled": rng.randrange(2), "flags": rng.choice([0, 0, int(re.IGNORECASE), int(re.MULTILINE)]),
                "enumerate": rng.randrange(2), "insensitive": rng.randrange(2), "as": rng.choice(["str", "path", "bytes"]), "chunks": chunks, "plan": plan, "buffer": rng.choice([1, 2, 5, 16, 8192, 8192]),
                "sizeless": int(rng.random() < .2), "open_error": rng.choice([None] * 19 + ["EACCES", "ENOENT", "EMFILE"]), "stamp": fs.EPOCH * 10 ** 9}
        case["then"] = [self.gen_change(rng, case, words) for _ in range(rng.choice([1, 1, 2, 3]))] if rng.random() < .35 else []
        if content and rng.random() < .006:
            case["times"] = rng.choice([300, 5000, 70000, 140000]) // len(content) + 1
            case["chunks"] = rng.choice([[], [4096], [997], [65536, 3]])
            case["buffer"] = rng.choice([8192, 8192, 1024])
            for c in case["then"]:
                c.pop("chunks", None)
        return case

    @staticmethod
    def gen_change(rng, case, words):
        "What is different in a later search."
        c = {}
        if rng.random() < .7:
            # (errors mostly come first)
            c.update(plan=[], open_error=None)
        for k in rng.sample(["needle", "flags", "grep", "compiled", "enumerate", "insensitive", "content", "bytes", "as", "chunks", "stamp", "case"], rng.choice([0, 1, 1, 2, 3])):
            if k == "needle":
                c[k] = rng.choice(["a", "b", "foo", "A", "", "x y", "^a", "o+"])
            elif k == "flags":
                c[k] = rng.choice([0, int(re.IGNORECASE), int(re.MULTILINE)])
            elif k in ("grep", "compiled", "enumerate", "insensitive"):
                c[k] = 1 - case[k]
            elif k == "content":
                # as many characters as before
                t = case["content"]
                i = rng.randrange(len(t) + 1)
                c[k] = t[::-1] if rng.random() < .5 else t[i:] + t[:i]
            elif k == "bytes" and "\\u" not in case["needle"]:
                c.update(bytes=1 - case["bytes"], encoding=None)
                if case["write_encoding"] not in ("utf-8", "ascii"):
                    c["write_encoding"] = "utf-8"
            elif k == "as":
                c[k] = rng.choice(["str", "path", "bytes"])
            elif k == "chunks":
                c[k] = rng.choice([[], [1], [3, 5]])
            elif k == "stamp":
                c[k] = case["stamp"] + rng.choice([-10 ** 9, 1, 10 ** 9])
            elif k == "case":
                c["needle"] = case["needle"].upper() if "\\" not in case["needle"] and "?" not in case["needle"] else case["needle"]
        return c

    def simplify(self, case):
        c = case["content"]
        for i in range(0, len(c), max(1, len(c) // 8)):
            d = dict(case)
            d["content"] = c[:i] + c[i + max(1, len(c) // 8):]
            yield d

    def run(self, case):
        out = runner.Outcome()
        mod = seams.fresh("file")
        try:
            World(self, case, out, mod).run()
            for change in case["then"]:
                out.probes["searched_again"] += 1
                out.probes["other_content_same_stamp"] += "content" in change and "stamp" not in change
                World(self, {**case, **change}, out, mod).run()
        except Violation as v:
            out.violation = (v.kind, v.detail)
        out.switches = []
        out.nontrivial = bool(out.faults)
        out.signature = runner.sig((case["content"], out.log, case["plan"], case["chunks"]))
        return out
