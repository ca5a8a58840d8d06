"""
C23-C25: callers of touch, safe_mkdir and safe_unlink, each a task, and
adversaries (other processes) working on the same paths, on a real directory
tree behind the file system seam.  C26: nested temporary directory changes with
failing system calls.
"""
import os
import pathlib
import stat as stat_

from sim import kernel as K, runner, seams, fs
from sim.kernel import Violation, HarnessError, Injected
from worlds.sched_threads import gen_sched

TICK = 1_000_000          # one simulated millisecond per system call, in ns
REAL = 10 ** 12           # time stamps that are this much later are the kernel's own
PATHS = ["p", "d/p", "d", "d/e", "d/e/p", "q"]

# modification times and sizes others give to files
STAMPS = [0, 1, 999_999_999, -1, -1_500_000_000, 1_699_999_999_123_456_789, 1_600_000_000_000_000_001, 253_402_300_799_999_999_999, 2 ** 32 * 10 ** 9 + 7]
SIZES = [0, 1, 4095, 65_537, 2 ** 31, 2 ** 32 + 5]


def ancestors(p):
    out = []
    while "/" in p:
        p = p.rsplit("/", 1)[0]
        out.append(p)
    return out


class Call:
    "One call of the function under test."
    def __init__(self, path, n):
        self.path = path
        self.n = n
        self.moment = False          # the promised condition held at some moment of the call
        self.faulted = None          # system call that was made to fail
        self.refused_removal = False
        self.excuses = []            # what others did that may keep the call from succeeding
        self.created = set()
        self.dead = False
        self.start_ns = 0
        self.calls = 0
        self.facts = set()           # C32: what the path was like during the call
        self.refused = False
        self.spec = None
        self.fn = None


class FileWorld:
    def __init__(self, check, case, out):
        self.check, self.case, self.out = check, case, out
        self.root = check.run_dir
        self.mod = check.mod()
        self.k = K.Kernel(case["sched"], step_cap=60_000, code_prefixes=seams.CODE_PREFIXES)
        self.now_ns = fs.EPOCH * 10 ** 9
        self.active = {}             # task id -> Call
        self.last = {}
        self.busy = False            # the simulator itself is looking at the tree

    # -- the simulated machine --------------------------------------------

    def tick(self):
        self.now_ns += TICK
        self.k.now = self.now_ns / 1e9 - fs.EPOCH

    def stamp(self):
        "Time stamps the kernel has just made become simulated ones."
        for r in list(self.last):
            if self.last[r][0] in "fd":
                p = os.path.join(self.root, r)
                try:
                    st = self.real["stat"](p, follow_symlinks=False)
                    if st.st_mtime_ns > self.now_ns + REAL:
                        self.real["utime"](p, ns=(self.now_ns, self.now_ns))
                except OSError:
                    pass

    def isfile(self, p):
        try:
            return stat_.S_ISREG(self.real["stat"](os.path.join(self.root, p)).st_mode)
        except OSError:
            return False

    def isdir(self, p):
        try:
            return stat_.S_ISDIR(self.real["stat"](os.path.join(self.root, p)).st_mode)
        except OSError:
            return False

    def moments(self):
        for c in self.active.values():
            self.watch(c)
            if not c.moment and self.holds(c):
                c.moment = True

    def watch(self, c):
        pass

    def flush(self, by=None, what=""):
        "Compare the tree with how it was last seen; by is the call that acted, or 'adversary'."
        self.busy = True
        try:
            snap = fs.snapshot(self.root)
        finally:
            self.busy = False
        changes = [(p, self.last.get(p), snap.get(p)) for p in sorted(set(self.last) | set(snap)) if self.last.get(p) != snap.get(p)]
        before = self.last
        self.last = snap
        if changes:
            self.stamp()
        for p, old, new in changes:
            for c in self.active.values():
                if c is not by:
                    e = self.excuse(c, p, old, new)
                    if e:
                        c.excuses.append(e)
            if isinstance(by, Call):
                self.judge_change(by, p, old, new, before)
                if old is None:
                    by.created.add(p)
            elif by is None and self.active:
                # not seen through the seam: some call in progress did it
                err = None
                for c in self.active.values():
                    try:
                        self.judge_change(c, p, old, new, before)
                        err = None
                        if old is None:
                            c.created.add(p)
                        break
                    except Violation as v:
                        err = v
                if err:
                    raise err
        self.moments()

    def syscall(self, name, real, a, kw):
        k = self.k
        c = self.active.get(k.cur.id) if k.running and k.cur is not None else None
        if c is None or self.busy or K.current() is not k:
            return real(*a, **kw)
        if c.dead:
            raise fs.SimCrash()
        k.point()
        self.flush()
        self.tick()
        self.moments()
        n = c.calls
        c.calls += 1
        arg = next((self.rel(x) for x in a if isinstance(x, (str, bytes, os.PathLike))), "")
        for f in self.case["faults"]:
            if f["call"] == c.n and f["at"] == n:
                if f["error"] == "crash":
                    c.dead = True
                    self.out.faults["crash"] += 1
                    k.note("crash", name, arg)
                    raise fs.SimCrash()
                c.faulted = name
                c.refused_removal |= name in ("unlink", "remove", "rename", "replace")
                self.out.faults[f"{name}_{f['error']}"] += 1
                k.note("fail", name, arg, f["error"])
                raise fs.oserror(f["error"], arg)
        if name == "utime":
            if len(a) < 2 and kw.get("times") is None and kw.get("ns") is None or len(a) == 2 and a[1] is None and kw.get("ns") is None:
                kw = {x: y for x, y in kw.items() if x not in ("times", "ns")}
                a = a[:1]
                kw["ns"] = (self.now_ns, self.now_ns)
        try:
            r = real(*a, **kw)
            ok = "ok"
        except OSError as e:
            ok = type(e).__name__
            raise
        finally:
            self.flush(c)
            if name == "fopen" or name == "open":
                self.stamp()
            self.moments()
            k.note(name, arg, ok)
        return r

    def rel(self, p):
        p = os.fsdecode(p)
        p = p.replace(self.root + "/", "").replace(self.root, ".")
        return p.replace(os.path.dirname(self.root), "..").replace(os.path.dirname(os.path.dirname(self.root)), "../..")

    # -- tasks ----------------------------------------------------------------

    def adversary(self, ops):
        k = self.k
        real = self.real
        for op in ops:
            k.point()
            self.flush()
            self.tick()
            p = os.path.join(self.root, op[1])
            what = op[0]
            try:
                if what == "create":
                    fd = real["open"](p, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o666)
                    os.write(fd, op[2].encode())
                    os.close(fd)
                elif what == "append":
                    fd = real["open"](p, os.O_APPEND | os.O_WRONLY | os.O_NONBLOCK)
                    os.write(fd, op[2].encode())
                    os.close(fd)
                elif what == "remove":
                    real["unlink"](p)
                elif what == "rmdir":
                    real["rmdir"](p)
                elif what == "mkdir":
                    real["mkdir"](p)
                elif what == "rename":
                    real["rename"](p, os.path.join(self.root, op[2]))
                elif what in ("guard", "unguard"):
                    if op[1] in self.last and self.last[op[1]][0] in "df":
                        self.guard(op[1], what == "guard")
                elif what == "old":
                    real["utime"](p, ns=((fs.EPOCH - 10 ** 6) * 10 ** 9,) * 2)
                elif what == "future":
                    real["utime"](p, ns=(self.now_ns + REAL // 2,) * 2)
                elif what == "stamp":
                    real["utime"](p, ns=(op[2], op[2]))
                elif what == "size":
                    if self.isfile(op[1]):
                        real["truncate"](p, op[2])
                elif what == "swap":
                    # in one step, seen by nobody half way
                    if self.isfile(op[1]):
                        real["unlink"](p)
                        real["mkdir"](p)
                    elif self.isdir(op[1]):
                        real["rmdir"](p)
                        fd = real["open"](p, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o666)
                        os.close(fd)
                ok = "ok"
                self.out.faults["adversary_" + what] += 1
            except OSError as e:
                ok = type(e).__name__
            self.flush("adversary", what)
            for c in self.active.values():
                self.look_guarded(c)
            self.stamp()
            self.moments()
            k.note("adversary", *op, ok)

    def caller(self, calls):
        for spec in calls:
            self.attempt(spec, True)

    def as_arg(self, spec):
        p = spec["path"]
        if spec["abs"]:
            p = os.path.join(self.root, p)
        if spec["as"] == "bytes":
            return os.fsencode(p)
        if spec["as"] == "path":
            return pathlib.Path(p)
        return p

    def attempt(self, spec, in_task):
        k = self.k
        tid = k.cur.id if in_task else -1
        for again in range(3):
            c = Call(spec["path"], spec["n"] if again == 0 and in_task else -1)
            c.spec = spec
            if in_task:
                k.point()
            self.flush()
            self.tick()
            c.start_ns = self.now_ns
            self.active[tid] = c
            self.look_guarded(c, True)
            self.begin(c)
            self.moments()
            err = None
            crashed = False
            try:
                self.function(c, self.as_arg(spec))
            except (Violation, HarnessError):
                raise
            except fs.SimCrash:
                crashed = True
            except Exception as e:
                err = e
            self.flush(c)
            self.moments()
            del self.active[tid]
            self.out.stats["calls"] += 1
            if crashed or c.dead:
                # the process is gone; a new one does it again
                self.out.probes["retry_after_crash"] += 1
                continue
            if in_task:
                k.note("call", c.path, type(err).__name__ if err else "returned")
            self.finish(c, err)
            return c, err

    def guard(self, p, on):
        "Directory p refuses changes of its entries from now on, or a file p refuses writing."
        full = os.path.join(self.root, p) if p else self.root
        d = self.isdir(p)
        self.real["chmod"](full, (0o555 if d else 0o444) if on else (0o755 if d else 0o644))

    def unwritable(self, p):
        try:
            st = self.real["stat"](os.path.join(self.root, p) if p else self.root)
        except OSError:
            return False
        return not st.st_mode & 0o200 and os.getuid()

    def look_guarded(self, c, begin=False):
        for a in ancestors(c.path) + [""] + ([] if begin or self.name != "touch" else [c.path]):
            if self.unwritable(a):
                c.excuses.append("unwritable")

    def run(self):
        case = self.case
        os.chdir(self.root)
        patched = fs.Patched(self.syscall)
        self.real = patched.real
        fs.wipe(self.root)
        for p, kind in case["tree"]:
            full = os.path.join(self.root, p)
            try:
                if kind == "d":
                    os.mkdir(full)
                elif kind == "p":
                    os.mkfifo(full)
                elif kind.startswith("->"):
                    os.symlink(kind[2:], full)
                else:
                    with open(full, "w") as f:
                        f.write(kind)
                if not kind.startswith("->"):
                    os.utime(full, ns=((fs.EPOCH - 10 ** 6) * 10 ** 9,) * 2)
            except OSError:
                pass
        for p, kind in reversed(case["tree"]):
            if kind == "d":
                try:
                    os.utime(os.path.join(self.root, p), ns=((fs.EPOCH - 10 ** 6) * 10 ** 9,) * 2)
                except OSError:
                    pass
        for p in case.get("future", ()):
            try:
                os.utime(os.path.join(self.root, p), ns=(self.now_ns + REAL // 2,) * 2)
                self.out.faults["time_stamp_in_the_future"] += 1
            except OSError:
                pass
        self.last = fs.snapshot(self.root)
        for p in case["guard"]:
            if p == "" or p in self.last and self.last[p][0] in "df":
                self.guard(p, True)
                self.out.faults["unwritable_" + ("directory" if self.isdir(p) else "file")] += 1
        k = self.k
        with patched:
            for i, calls in enumerate(case["callers"]):
                k.spawn(f"caller{i}", lambda calls=calls: self.caller(calls))
            for i, ops in enumerate(case["adversaries"]):
                k.spawn(f"other{i}", lambda ops=ops: self.adversary(ops))
            k.run()
            if k.violation:
                return
            # everybody else has stopped: now it must work
            seams.outside_clock[0] = k.now
            for p in sorted({s["path"] for c in case["callers"] for s in c}):
                c, err = self.attempt({"path": p, "n": -1, "abs": 0, "as": "str", "f": None}, False)
                self.out.probes["quiet_call"] += 1

    def begin(self, c):
        pass

    def unexpected(self, c, err):
        raise Violation("unexpected-exception", f"{self.name}({c.path!r}) raised {type(err).__name__}: {self.rel(str(err))}")


class Touch(FileWorld):
    name = "touch"

    def function(self, c, arg):
        self.mod.touch(arg)

    def begin(self, c):
        parent = c.path.rpartition("/")[0]
        if parent and not self.isdir(parent):
            c.excuses.append("no parent")

    def holds(self, c):
        try:
            m = self.real["stat"](os.path.join(self.root, c.path)).st_mtime_ns
            return c.start_ns - 1000 <= m <= self.now_ns + 1000 or m > self.now_ns + REAL
        except OSError:
            return False

    def excuse(self, c, p, old, new):
        if p == c.path:
            if old is not None and (new is None or new[0] != old[0]):
                return "removed"
            if new is not None and new[0] != "f":
                return "something else appeared"
        elif p in ancestors(c.path) and (new is None or new[0] != "d"):
            return "parent gone"

    def judge_change(self, c, p, old, new, before):
        if old is None and new is not None and new[0] == "d" and p in ancestors(c.path):
            return
        if p == c.path and old is None and new == ("f", b""):
            return
        if old is not None and new is None and p in c.created and old == ("f", b""):
            return
        link = before.get(c.path, ("",))
        if link[0] == "l" and p == os.path.normpath(os.path.join(os.path.dirname(c.path), link[1])) and old is None and new == ("f", b""):
            self.out.probes["created_through_link"] += 1
            return
        if old is None:
            if p == c.path:
                raise Violation("not-empty", f"touch({c.path!r}) created {new!r}")
            raise Violation("wrong-path", f"touch({c.path!r}) created {p!r}")
        raise Violation("data-destroyed", f"touch({c.path!r}) changed {p!r} from {old!r} to {new!r}")

    def finish(self, c, err):
        if err is None:
            if not c.moment:
                raise Violation("not-touched", f"touch({c.path!r}) returned, but at no moment of the call did it exist with a time stamp of the call")
            return
        if not isinstance(err, OSError):
            self.unexpected(c, err)
        if c.faulted or c.excuses:
            return
        self.unexpected(c, err)


class Mkdir(FileWorld):
    name = "safe_mkdir"

    def function(self, c, arg):
        self.mod.safe_mkdir(arg)

    def begin(self, c):
        for a in ancestors(c.path):
            if a in self.last and not self.isdir(a):
                c.excuses.append("parent is a file")
        if c.path in self.last and not self.isfile(c.path) and not self.isdir(c.path):
            c.excuses.append("neither file nor directory")

    def watch(self, c):
        c.facts.add("directory" if self.isdir(c.path) else "none")

    def holds(self, c):
        return self.isdir(c.path)

    def excuse(self, c, p, old, new):
        if p == c.path:
            if new is not None and new[0] != "d":
                return "a file appeared"
            if old is not None and old[0] == "d":
                return "directory removed"
        elif p in ancestors(c.path):
            if (new is not None and new[0] != "d") or (old is not None and old[0] == "d"):
                return "parent gone"

    def judge_change(self, c, p, old, new, before):
        if old is None or p in c.created:
            return
        if p == c.path and (old[0] == "f" or old[0] == "l" and "none" in c.facts) and (new is None or new[0] == "d"):
            return
        raise Violation("destroyed", f"safe_mkdir({c.path!r}) changed {p!r} from {old!r} to {new!r}")

    def finish(self, c, err):
        if err is None:
            if not c.moment:
                raise Violation("no-directory", f"safe_mkdir({c.path!r}) returned, but it was no directory at any moment of the call")
            for p in c.created:
                if p != c.path and p not in ancestors(c.path) and p in self.last:
                    raise Violation("wrong-path", f"safe_mkdir({c.path!r}) left {p!r} behind")
            return
        if not isinstance(err, OSError):
            self.unexpected(c, err)
        if c.faulted or c.excuses:
            return
        self.unexpected(c, err)


class Unlink(FileWorld):
    name = "safe_unlink"

    def function(self, c, arg):
        self.mod.safe_unlink(arg)

    def watch(self, c):
        if self.isfile(c.path):
            c.facts.add("file")

    def holds(self, c):
        return not self.isfile(c.path)

    def excuse(self, c, p, old, new):
        return None

    def judge_change(self, c, p, old, new, before):
        if p == c.path and new is None:
            c.removed = getattr(c, "removed", 0) + 1
            if c.removed > 1:
                raise Violation("removed-twice", f"one call of safe_unlink({c.path!r}) removed what somebody put there after it had removed the file")
        if p == c.path and new is None and old is not None and old[0] == "f":
            return
        if p == c.path and new is None and old is not None and old[0] != "d" and "file" in c.facts:
            # a link to what was a file when somebody looked, or what replaced it since
            self.out.probes["unlinked_other"] += 1
            return
        raise Violation("destroyed", f"safe_unlink({c.path!r}) changed {p!r} from {old!r} to {new!r}")

    def finish(self, c, err):
        if err is None:
            if c.refused_removal and not c.moment:
                raise Violation("not-removed", f"safe_unlink({c.path!r}) returned, but it was a file all along and its removal was refused")
            if not c.moment and c.faulted not in ("stat", "lstat", "access", "scandir", "listdir"):
                raise Violation("not-removed", f"safe_unlink({c.path!r}) returned, but it was a file all along")
            return
        if not isinstance(err, OSError):
            self.unexpected(c, err)
        if c.faulted or c.excuses:
            return
        self.unexpected(c, err)


class Facts(FileWorld):
    name = "file_size or file_mtime"

    def function(self, c, arg):
        c.fn = c.spec["f"] or "file_mtime_ns"
        c.result = getattr(self.mod, c.fn)(arg)

    def look(self, c):
        try:
            st = self.real["stat"](os.path.join(self.root, c.path))
        except OSError as e:
            return e.errno
        return (st.st_size, st.st_mtime, st.st_mtime_ns)

    def watch(self, c):
        now = self.look(c)
        if isinstance(now, int):
            c.refused = True
        else:
            c.facts.add(now)

    def holds(self, c):
        return False

    def excuse(self, c, p, old, new):
        return None

    def judge_change(self, c, p, old, new, before):
        raise Violation("changed", f"{c.fn}({c.path!r}) changed {p!r} from {old!r} to {new!r}")

    def finish(self, c, err):
        self.out.probes["changed_during_call"] += len(c.facts) > 1
        if err is None:
            r = c.result
            if c.fn == "file_mtime":
                ok = isinstance(r, float) and any(abs(r - f[1]) < 1e-6 for f in c.facts)
            else:
                i = 0 if c.fn == "file_size" else 2
                ok = isinstance(r, int) and any(r == f[i] for f in c.facts)
            if not ok:
                raise Violation("wrong-fact", f"{c.fn}({c.path!r}) gave {r!r}; (size, mtime, mtime_ns) during the call: {sorted(c.facts)}")
            return
        if not isinstance(err, OSError):
            self.unexpected(c, err)
        if c.faulted or c.refused:
            self.out.probes["refused"] += 1
            return
        self.unexpected(c, err)


class _File(runner.Check):
    needs_scratch = True
    lists = (("callers",), ("callers", "*"), ("adversaries",), ("adversaries", "*"), ("faults",), ("tree",), ("guard",))
    stubs = ("thread scheduler", "other processes (adversary tasks)", "clock of the file system", "failing system calls")
    runs = {"quick": 27000, "thorough": 500000}
    world = None
    scratch = None
    run_dir = None
    errors = ["EACCES", "EIO", "EROFS", "EPERM", "ENOSPC"]

    def setup(self):
        self.run_dir = os.path.join(self.scratch, f"w{os.getpid()}")
        self._mod = seams.fresh("file")
        fs.drop_privileges()
        os.mkdir(self.run_dir)
        self.run_dir = os.path.realpath(self.run_dir)
        os.chdir(self.run_dir)

    def mod(self):
        return seams.fresh("file")

    def gen_tree(self, rng):
        tree = []
        if rng.random() < .6:
            tree.append(["d", "d" if rng.random() < .8 else "x"])
            if tree[-1][1] == "d" and rng.random() < .5:
                tree.append(["d/e", "d" if rng.random() < .7 else "y"])
                if tree[-1][1] == "d" and rng.random() < .5:
                    tree.append(["d/e/p", "deep" if rng.random() < .6 else "d"])
            if tree[0][1] == "d" and rng.random() < .6:
                tree.append(["d/p", rng.choice(["data", "data", "", "d"])])
        if rng.random() < .6:
            tree.append(["p", rng.choice(["data", "data", "", "d"])])
        if rng.random() < .6:
            tree.append(["q", rng.choice(["other", "d"])])
        tree.append(["keep", "precious"])
        return tree

    def gen(self, rng, index, tier):
        tree = self.gen_tree(rng)
        paths = rng.choice([["p"], ["d/p"], ["p", "q"], ["d/p", "d/e/p"], ["d", "d/p"], ["d/e", "d/e/p", "d"], PATHS])
        n = [0]
        def call():
            n[0] += 1
            return {"path": rng.choice(paths), "n": n[0], "abs": rng.randrange(2), "as": rng.choice(["str", "str", "path", "bytes"]), "f": rng.choice(["file_size", "file_mtime", "file_mtime_ns"])}
        callers = [[call() for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        adversaries = []
        quiet = rng.random() < .35
        if not quiet:
            for _ in range(rng.choice([1, 1, 2])):
                ops = []
                for _ in range(rng.choice([1, 1, 2, 4])):
                    p = rng.choice(paths) if rng.random() < .8 else rng.choice(PATHS)
                    w = rng.choice(self.adversary_ops) if rng.random() < .9 else rng.choice(["guard", "guard", "unguard"])
                    ops.append([w, p] + ([f"w{rng.randrange(100)}"] if w in ("create", "append") else [rng.choice(PATHS)] if w == "rename" else [rng.choice(STAMPS)] if w == "stamp" else [rng.choice(SIZES)] if w == "size" else []))
                adversaries.append(ops)
        faults = []
        if rng.random() < .4:
            for _ in range(rng.choice([1, 1, 2, 3])):
                faults.append({"call": rng.randint(1, n[0]), "at": rng.randrange(6), "error": "crash" if rng.random() < .3 else rng.choice(self.errors)})
                if faults[-1]["error"] != "crash" and rng.random() < .3:
                    # and so does what is tried next
                    faults.append(dict(faults[-1], at=faults[-1]["at"] + 1))
        guard = [rng.choice(["", "d", "d", "d/e", "p", "d/p", "q"]) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < .15 else []
        return {"tree": tree, "callers": callers, "adversaries": adversaries, "faults": faults, "guard": guard, "sched": gen_sched(rng, 60)}

    def run(self, case):
        out = runner.Outcome()
        w = self.world(self, case, out)
        v = None
        try:
            w.run()
        except Violation as e:
            v = (e.kind, e.detail)
        finally:
            os.chdir(self.run_dir)
        out.violation = w.k.violation or v
        if out.violation:
            out.violation = (out.violation[0], out.violation[1].replace(self.run_dir + "/", ""))
        out.switches = w.k.switches
        out.log = w.k.log
        out.sim_time = (w.now_ns - fs.EPOCH * 10 ** 9) / 1e9
        out.steps = w.k.step
        out.faults["preemption"] += len(w.k.switches)
        out.nontrivial = len(w.k.log) > 1 and bool(w.k.switches or out.faults)
        out.signature = runner.sig([e[1:2] + e[3:] for e in out.log])
        return out


class C23(_File):
    id = "C23"
    world = Touch
    real = ("big.file.touch", "os, pathlib and a real file system")
    adversary_ops = ["create", "create", "append", "remove", "mkdir", "rmdir", "rename", "old", "future", "swap"]
    rule = ("one case = 1-3 callers of touch, 0-2 other processes creating, writing, removing, replacing and renaming the same paths, system calls made to fail, crashes followed by a retry; preemption at every line and every system call; "
            "the tree is compared before and after every system call; non-trivial = a preemption, an adversary step or a fault; distinct by the sequence of system calls and outcomes")
    assumptions = ("time stamps come from a simulated clock that moves one millisecond per system call", "the path may be removed or replaced by others during the call: then touch may raise")
    required_probes = ("retry_after_crash", "quiet_call", "created_through_link")

    def gen(self, rng, index, tier):
        c = super().gen(rng, index, tier)
        c["future"] = rng.sample(PATHS, rng.choice([1, 2, 6])) if rng.random() < .15 else []
        return c

    def gen_tree(self, rng):
        tree = super().gen_tree(rng)
        if rng.random() < .12:
            tree.append([rng.choice(["p", "q", "d/p"]), rng.choice(["->keep", "->d", "->nowhere", "->nowhere"])])
        return tree


class C24(_File):
    id = "C24"
    world = Mkdir
    real = ("big.file.safe_mkdir", "os.makedirs", "a real file system")
    adversary_ops = ["create", "remove", "remove", "mkdir", "mkdir", "rmdir", "rename", "swap", "append"]
    rule = ("one case = 1-3 callers of safe_mkdir on the same or overlapping paths, 0-2 other processes, failing system calls, crashes followed by a retry; preemption at every line and every system call; "
            "the tree is compared before and after every system call; non-trivial = a preemption, an adversary step or a fault; distinct by the sequence of system calls and outcomes")
    assumptions = ("a file or another directory appearing at the path or above it by somebody else's doing, or a directory disappearing, during the call excuses a failure",)
    required_probes = ("retry_after_crash", "quiet_call")

    def gen_tree(self, rng):
        tree = super().gen_tree(rng)
        if rng.random() < .06:
            tree.append([rng.choice(["p", "d/p", "q"]), "p"])
        if rng.random() < .1:
            tree.append([rng.choice(["p", "q"]), rng.choice(["->keep", "->d"])])
        return tree


class C25(_File):
    id = "C25"
    world = Unlink
    real = ("big.file.safe_unlink", "a real file system")
    adversary_ops = ["create", "create", "remove", "remove", "mkdir", "rmdir", "rename", "swap", "append"]
    rule = ("one case = 1-3 callers of safe_unlink on the same or overlapping paths, 0-2 other processes, failing system calls, crashes followed by a retry; preemption at every line and every system call; "
            "the tree is compared before and after every system call; non-trivial = a preemption, an adversary step or a fault; distinct by the sequence of system calls and outcomes")
    assumptions = ("if the system call that tells whether the path is a file is made to fail, doing nothing is accepted",)
    required_probes = ("retry_after_crash", "quiet_call")

    def gen_tree(self, rng):
        tree = super().gen_tree(rng)
        if rng.random() < .06:
            tree.append([rng.choice(["p", "d/p", "q"]), "p"])
        if rng.random() < .12:
            tree.append([rng.choice(["p", "q"]), rng.choice(["->keep", "->d", "->nowhere"])])
        return tree


class C32(_File):
    id = "C32"
    world = Facts
    real = ("big.file.file_size, file_mtime, file_mtime_ns", "a real file system")
    adversary_ops = ["create", "append", "append", "remove", "mkdir", "rename", "old", "swap", "stamp", "stamp", "stamp", "size", "size"]
    rule = ("one case = 1-3 callers of file_size, file_mtime or file_mtime_ns, 0-2 other processes changing sizes and time stamps of the paths, replacing and removing them, failing system calls, crashes; "
            "compared with what the path was like at each moment of the call; non-trivial = a preemption, an adversary step or a fault; distinct by the sequence of system calls and outcomes")
    assumptions = ("file_mtime is compared to the microsecond (its precision is that of a float)",)
    required_probes = ("changed_during_call", "refused")

    def gen_tree(self, rng):
        tree = super().gen_tree(rng)
        if rng.random() < .25:
            tree.append([rng.choice(["p", "q", "d/p"]), rng.choice(["->keep", "->d", "->nowhere", "p"])])
        return tree


# ---------------------------------------------------------------------------
# C26
# ---------------------------------------------------------------------------

class BlockError(Exception):
    pass


class BlockExit(BaseException):
    pass


def block_error(kind, n):
    "What a block raises."
    if kind in fs_errors:
        return fs.oserror(kind, "the block's own")
    if kind == "plain":
        return BlockError(n)
    if kind == "base":
        return BlockExit(n)
    return K.KINDS[kind](f"block {n}")


fs_errors = ("ENOENT", "ENOENT", "EACCES", "EEXIST", "ENOTDIR", "EISDIR", "EIO", "ENOSPC", "EINTR", "ENOTEMPTY")
# (a generator turns a StopIteration into something else, and being closed is a GeneratorExit)
block_kinds = ["plain", "base", *fs_errors, *(k for k in K.KINDS if k not in ("plain", "base", "stop", "stopasync", "genexit"))]


class PushWorld:
    def __init__(self, check, case, out):
        self.check, self.case, self.out = check, case, out
        self.root = check.run_dir
        self.mod = seams.fresh("file")
        self.calls = 0
        self.live = []
        self.armed = False
        self.objects = {}
        self.n = 0
        self.failed_in = False

    def syscall(self, name, real, a, kw):
        if name not in ("chdir", "getcwd") or not self.armed:
            return real(*a, **kw)
        n = self.calls
        self.calls += 1
        self.out.steps += 1
        for f in self.case["faults"]:
            if f[0] == n:
                self.out.faults[f"{name}_{f[1]}"] += 1
                self.out.log.append((n, name, f[1]))
                self.failed_in = True
                raise fs.oserror(f[1], "")
        return real(*a, **kw)

    def cwd(self):
        try:
            d = self.real["getcwd"]()
            # (names of the scratch directory differ from run to run)
            return d.replace(self.root, "") if d.startswith(self.root) else "^" + os.path.relpath(d, self.root)
        except OSError:
            return None

    def path(self, p):
        if p.startswith("/"):
            return self.root + p
        return p

    def as_arg(self, p, how):
        p = self.path(p)
        if how == "bytes":
            return os.fsencode(p)
        if how == "path":
            return pathlib.Path(p)
        return p

    def set_pwd(self):
        "Shells leave the name they know the current directory by in the environment; it may go through a symbolic link."
        how = self.case.get("pwd")
        if how is None:
            return
        try:
            d = self.real["getcwd"]()
        except OSError:
            return
        if how == "link":
            to = self.root + "/" + self.real["readlink"](self.root + "/link")
            if d == to or d.startswith(to + "/"):
                d = self.root + "/link" + d[len(to):]
                self.out.stats["directory_known_by_link"] += 1
        elif how == "stale":
            d = self.root + "/x"
        os.environ["PWD"] = d

    def armed_call(self, fn, *a):
        self.set_pwd()
        self.armed = True
        self.failed_in = False
        try:
            return fn(*a)
        finally:
            self.armed = False

    def block(self, node):
        out = self.out
        out.stats["blocks"] += 1
        key = node["object"]
        if key is not None and key in self.objects:
            obj = self.objects[key]
            out.probes["object_reused"] += 1
            if key in self.live:
                out.probes["object_nested_in_itself"] += 1
        else:
            try:
                obj = self.armed_call(self.mod.pushd, self.as_arg(node["path"], node["as"]))
            except OSError as e:
                if not self.failed_in and self.cwd() is not None:
                    raise Violation("unexpected-exception", f"pushd({node['path']!r}) raised {e!r}")
                out.log.append(("no object",))
                return
            if key is not None:
                self.objects[key] = obj
        if node["before"]:
            # the directory may change between making the object and entering
            self.chdir(node["before"])
        before = self.cwd()
        here = self.identity(".")
        try:
            target = self.identity(self.path(node["path"]) if key is None or key not in self.objects else os.fsdecode(obj.path) if hasattr(obj, "path") else None)
        except OSError:
            target = None
        self.armed_call_enter = False
        err = self.use(obj, node, before, here)
        return err

    def identity(self, p):
        if p is None:
            return None
        st = self.real["stat"](p)
        return (st.st_dev, st.st_ino)

    def use(self, obj, node, before, here):
        out = self.out
        world = self
        entered = [False]
        raised = [None]
        inside = [None]

        class Wrapped:
            "Arms the faults around entering and leaving only."
            def __enter__(self):
                r = world.armed_call(obj.__enter__)
                entered[0] = True
                return r
            def __exit__(self, *exc):
                return world.armed_call(obj.__exit__, *exc)

        def body():
            inside[0] = world.cwd()
            out.log.append(("in", inside[0]))
            world.check_entered(node, before)
            world.live.append(node["object"])
            try:
                for a in node["body"]:
                    world.action(a)
            finally:
                world.live.pop()
            if node["leave"] == "raise":
                raised[0] = block_error(node["error"], world.n)
                raise raised[0]

        def generator():
            with Wrapped():
                body()
                yield 1
                yield 2

        got = None
        try:
            if node["leave"] in ("abandon", "throw"):
                g = generator()
                next(g)
                if node["leave"] == "throw":
                    raised[0] = block_error(node["error"], world.n)
                    g.throw(raised[0])
                else:
                    g.close()
                    out.faults["abandoned"] += 1
            elif node["leave"] == "return":
                def f():
                    with Wrapped():
                        body()
                        return 1
                f()
            elif node["leave"] == "continue":
                for _ in range(1):
                    with Wrapped():
                        body()
                        continue
            else:
                with Wrapped():
                    body()
        except (Violation, HarnessError):
            raise
        except BaseException as e:
            got = e
        now = self.cwd()
        out.log.append(("out", now, type(got).__name__ if got else None))
        if raised[0] is not None:
            out.faults["block_raised"] += 1
            out.probes["raised_after_directory_vanished"] += self.vanished(inside[0])
        if not entered[0]:
            out.probes["entering_failed"] += 1
            if got is None:
                raise Violation("hidden-error", "entering failed without an exception")
            if not isinstance(got, OSError):
                raise Violation("unexpected-exception", f"entering {node['path']!r} raised {got!r}")
            if now != before:
                raise Violation("wrong-directory", f"entering {node['path']!r} failed, but the directory changed from {before!r} to {now!r}")
            return got
        failed = self.failed_in
        possible = before is not None and self.isdir(before)
        if failed or not possible:
            # cannot go back: it has to say so
            out.probes["leaving_failed"] += 1
            if got is None or got is not raised[0] and not isinstance(got, OSError):
                if now != before:
                    raise Violation("hidden-error", f"the block left the directory at {now!r} instead of {before!r} without an exception")
            self.chdir_quiet(before)
            return got
        if now != before:
            raise Violation("wrong-directory", f"after the block for {node['path']!r} (left by {node['leave']}) the directory is {now!r}, before it was {before!r}")
        if raised[0] is not None and got is not raised[0]:
            raise Violation("swallowed", f"the block raised {raised[0]!r} but {got!r} came out")
        if raised[0] is None and got is not None:
            raise Violation("unexpected-exception", f"leaving the block raised {got!r}")
        return got

    def check_entered(self, node, before):
        if node["object"] is not None or (before or "").startswith("^"):
            return
        want = os.path.normpath(os.path.join("/" + (before or "").lstrip("/"), node["path"]))
        want = want.replace("/link", "/a")
        now = self.cwd()
        if now is not None and before is not None and "/.." not in node["path"] and ".." not in node["path"] and "link" not in node["path"]:
            if (now or "/") != want:
                raise Violation("wrong-directory", f"inside the block for {node['path']!r} entered from {before!r} the directory is {now!r}")

    def vanished(self, p):
        return p is not None and not self.isdir(p)

    def isdir(self, p):
        try:
            return stat_.S_ISDIR(self.real["stat"](self.absolute(p)).st_mode)
        except OSError:
            return False

    def absolute(self, p):
        return os.path.join(self.root, p[1:]) if p.startswith("^") else self.root + p

    def chdir_quiet(self, p):
        if p is None or not self.isdir(p):
            p = ""
        self.real["chdir"](self.absolute(p))

    def chdir(self, p):
        try:
            self.real["chdir"](self.path(p))
            return True
        except OSError:
            return False

    def action(self, a):
        self.n += 1
        if a[0] == "block":
            self.block(a[1])
        elif a[0] == "chdir":
            self.chdir(a[1])
            self.out.faults["block_changed_directory"] += 1
        elif a[0] == "rmdir":
            try:
                self.real["rmdir"](self.path(a[1]))
                self.out.faults["directory_removed"] += 1
            except OSError:
                pass
        elif a[0] == "rmhere":
            # the directory we are in
            try:
                self.real["rmdir"](self.real["getcwd"]())
                self.out.faults["current_directory_removed"] += 1
            except OSError:
                pass
        elif a[0] == "relink":
            self.real["unlink"](self.root + "/link")
            self.real["symlink"](a[1], self.root + "/link")
            self.out.faults["link_changed"] += 1
        elif a[0] == "open":
            self.open_block(a[1], a[2], a[3])
        elif a[0] == "close":
            self.close_block(a[1], a[2], a[3])

    def open_block(self, slot, path, how):
        """A block in a generator, suspended inside: it is left later, out of order with others."""
        out = self.out
        obj, entered = self.slots.get(slot, (None, []))
        try:
            if obj is None:
                obj = self.armed_call(self.mod.pushd, self.as_arg(path, how))
        except OSError:
            return
        before = self.cwd()
        world = self

        def generator():
            world.set_pwd()
            world.armed = True
            world.failed_in = False
            try:
                with obj:
                    world.armed = False
                    try:
                        yield
                    finally:
                        world.armed = True
                        world.failed_in = False
            finally:
                world.armed = False
        g = generator()
        try:
            next(g)
        except OSError:
            out.probes["entering_failed"] += 1
            if self.cwd() != before:
                raise Violation("wrong-directory", f"entering {path!r} failed, but the directory changed from {before!r} to {self.cwd()!r}")
            return
        out.stats["blocks"] += 1
        out.log.append(("open", slot, self.cwd()))
        self.slots[slot] = (obj, entered)
        entered.append((g, before))

    def close_block(self, slot, how, error="plain"):
        out = self.out
        obj, entered = self.slots.get(slot, (None, None))
        if not entered:
            return
        g, before = entered.pop()
        thrown = block_error(error, "thrown")
        got = None
        self.failed_in = False
        try:
            if how == "throw":
                g.throw(thrown)
            elif how == "abandon":
                g.close()
                out.faults["abandoned"] += 1
            else:
                next(g)
        except BaseException as e:
            got = e
        now = self.cwd()
        out.log.append(("close", slot, now, type(got).__name__ if got else None))
        out.probes["left_while_others_are_open"] += any(e for o, e in self.slots.values())
        if self.failed_in or before is None or not self.isdir(before):
            out.probes["leaving_failed"] += 1
            if got is not thrown and not isinstance(got, OSError):
                if now != before:
                    raise Violation("hidden-error", f"a block left the directory at {now!r} instead of {before!r} without an exception")
            self.chdir_quiet(before)
            return
        if now != before:
            raise Violation("wrong-directory", f"after a block left by {how} the directory is {now!r}, before it was {before!r}")
        if how == "throw" and got is not thrown:
            raise Violation("swallowed", f"the block raised {thrown!r} but {got!r} came out")
        if how == "normal" and not isinstance(got, StopIteration) or how == "abandon" and got is not None:
            raise Violation("unexpected-exception", f"leaving the block raised {got!r}")

    def run(self):
        self.slots = {}
        os.chdir(self.root)
        fs.wipe(self.root)
        for d in ("a", "a/b", "a/b/c", "x", "x/y", "gone"):
            os.mkdir(d)
        os.symlink("a", "link")
        pwd = os.environ.get("PWD")
        try:
            with fs.Patched(self.syscall, files=False) as p:
                self.real = p.real
                for a in self.case["actions"]:
                    self.action(a)
                for n, how in enumerate(self.case["closing"]):
                    for slot in sorted(self.slots, key=lambda k: (k * 7 + n) % 3):
                        self.close_block(slot, how)
        finally:
            os.environ.pop("PWD", None)
            if pwd is not None:
                os.environ["PWD"] = pwd


class C26(runner.Check):
    id = "C26"
    needs_scratch = True
    lists = (("actions",), ("faults",), ("actions", "*", "*", "body"), ("actions", "*", "*", "body", "*", "*", "body"))
    real = ("big.file.pushd", "a real file system and current directory")
    stubs = ("failing chdir and getcwd",)
    runs = {"quick": 180000, "thorough": 4000000}
    time_unit = "system calls"
    rule = ("one case = up to 12 temporary directory changes nested up to 4 deep, with objects made early, reused and nested in themselves, blocks that change directory, raise (any kind of exception, system errors too), return, or are abandoned in a generator, or suspended in generators and left in any order, "
            "directories that disappear, links that change, $PWD naming the directory through a link or wrongly, and chdir/getcwd made to fail; non-trivial = at least one block; distinct by event log")
    assumptions = ("if the previous directory is gone or changing to it fails, leaving must raise instead", "directories are not renamed meanwhile")
    required_probes = ("entering_failed", "leaving_failed", "object_reused", "object_nested_in_itself", "raised_after_directory_vanished", "left_while_others_are_open")
    setup = _File.setup

    def gen(self, rng, index, tier):
        count = [0]
        paths = ["a", "/a", "/a/b", "/x/y", "..", "b", "/link", "link", "/", ".", "/nowhere", "x", "/gone", "y", "/a/b/c", "../.."]
        def node(depth):
            count[0] += 1
            body = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                r = rng.random()
                if r < .55 and depth < 4 and count[0] < 12:
                    body.append(["block", node(depth + 1)])
                elif r < .85:
                    body.append(["chdir", rng.choice(paths)])
                elif r < .9:
                    body.append(["relink", rng.choice(["a", "x", "a/b", "x/y"])])
                else:
                    body.append(["rmdir", rng.choice(["/gone", "/x/y", "/x", "/a/b/c", "."])] if rng.random() < .4 else ["rmhere"])
            return {"path": rng.choice(paths), "as": rng.choice(["str", "str", "path", "bytes"]), "object": rng.choice([None, None, None, 0, 1]),
                    "before": rng.choice(["", "", "", "", "/x", "/a"]), "body": body,
                    "leave": rng.choice(["normal", "normal", "normal", "raise", "raise", "abandon", "throw", "return", "continue"]), "error": rng.choice(block_kinds)}
        ways = ["normal", "normal", "abandon", "throw"]
        actions = []
        mixed = rng.random() < .25
        for _ in range(rng.choice([3, 6, 10]) if mixed else rng.choice([1, 2, 3])):
            k = rng.random()
            if mixed and k < .4:
                actions.append(["open", rng.randrange(3), rng.choice(paths), rng.choice(["str", "str", "path", "bytes"])])
            elif mixed and k < .75:
                actions.append(["close", rng.randrange(3), rng.choice(ways), rng.choice(block_kinds)])
            else:
                actions.append(["block", node(1)] if k < .9 or not mixed and k < .8 else ["chdir", rng.choice(paths)])
        if rng.random() < .01:
            k = rng.choice([10, 20, 40, 70, 140])
            if rng.random() < .5:
                # deep nesting
                b = node(4)
                for _ in range(k):
                    b["body"] = b["body"][:1]
                    a = node(5)
                    a["body"][rng.randrange(len(a["body"]) + 1):] = [["block", b]]
                    b = a
                actions.append(["block", b])
            else:
                actions += [["block", node(3)]] * k
        faults = [[rng.randrange(30), rng.choice(["EACCES", "EIO", "ENOENT"])] for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        return {"actions": actions, "faults": faults, "pwd": rng.choice([None, "link", "link", "physical", "stale"]), "closing": [rng.choice(ways) for _ in range(10)] if mixed else []}

    def run(self, case):
        out = runner.Outcome()
        w = PushWorld(self, case, out)
        try:
            w.run()
        except Violation as v:
            out.violation = (v.kind, v.detail.replace(self.run_dir, ""))
        finally:
            os.chdir(self.run_dir)
        out.switches = []
        out.sim_time = w.calls
        out.signature = runner.sig((out.log, case["actions"]))
        out.nontrivial = out.stats["blocks"] > 0
        return out
