"""
Seams: simulated _thread, time and threading modules, and the loader that
imports the code under test fresh from the repository's working tree with
those seams in place.
"""

import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import kernel as K

REPO = os.environ.get("VERIF_REPO", "/repo")
BIG = os.path.join(REPO, "big") + os.sep
SIMTHREADING = "<simthreading>"
CODE_PREFIXES = (BIG, SIMTHREADING)

import time as real_time
import threading as real_threading
import _thread as real_thread


class SimLock:
    "A non-reentrant lock whose waiting is decided by the kernel."
    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout != -1 and timeout < 0:
            raise ValueError("timeout value must be a non-negative number")
        k = K.current()
        if k is None or not k.running:
            if self._locked:
                if not blocking or timeout != -1:
                    return False
                raise K.Violation("deadlock", "lock still held although nothing is running")
            self._locked = True
            return True
        k.point()
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = None if timeout == -1 else k.now + timeout
        while True:
            me = k.cur
            self._waiters.append(me)
            why = k.block(deadline, where="lock")
            if me in self._waiters:
                self._waiters.remove(me)
            if not self._locked:
                self._locked = True
                return True
            if why == "timeout":
                return False

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        k = K.current()
        if k is not None and k.running:
            for t in self._waiters:
                k.unblock(t)
            self._waiters.clear()
            k.point()

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    acquire_lock = acquire
    release_lock = release

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []


def _get_ident():
    k = K.current()
    if k is not None and k.running and k.cur is not None:
        return 1000 + k.cur.id
    return 1


def _start_new_thread(fn, args, kwargs={}):
    k = K.current()
    if k is None:
        raise K.HarnessError("code under test started a thread outside a simulation")
    t = k.spawn("thread", lambda: fn(*args, **kwargs))
    return 1000 + t.id


class _SimLocal:
    def __init__(self):
        object.__setattr__(self, "_d", {})
    def _ns(self):
        return object.__getattribute__(self, "_d").setdefault(_get_ident(), {})
    def __getattr__(self, n):
        try:
            return self._ns()[n]
        except KeyError:
            raise AttributeError(n) from None
    def __setattr__(self, n, v):
        self._ns()[n] = v
    def __delattr__(self, n):
        try:
            del self._ns()[n]
        except KeyError:
            raise AttributeError(n) from None


def _make_thread_module():
    m = types.ModuleType("_thread")
    m.LockType = SimLock
    m.allocate_lock = SimLock
    m.allocate = SimLock
    m.error = RuntimeError
    m.TIMEOUT_MAX = real_thread.TIMEOUT_MAX
    m.get_ident = _get_ident
    m.get_native_id = _get_ident
    m.start_new_thread = _start_new_thread
    m.start_new = _start_new_thread
    m.daemon_threads_allowed = lambda: True
    m._set_sentinel = SimLock
    m._local = _SimLocal
    m._excepthook = real_thread._excepthook
    m._ExceptHookArgs = real_thread._ExceptHookArgs
    m._is_main_interpreter = lambda: True
    m.interrupt_main = lambda *a: None
    m.stack_size = lambda *a: 0
    m._count = lambda: 1
    m.exit = lambda: (_ for _ in ()).throw(SystemExit())
    return m


def _now():
    k = K.current()
    if k is not None:
        return k.now
    if outside[0] is not None:
        return outside[0].monotonic()
    return outside_clock[0]

def _now_ns():
    if K.current() is None and hasattr(outside[0], "monotonic_ns"):
        return outside[0].monotonic_ns()
    return int(_now() * 1_000_000_000)

def _wall():
    k = K.current()
    if k is None and outside[0] is not None:
        return outside[0].wall()
    return float(_now()) + 1_700_000_000.0

outside_clock = [1000.0]

# without a kernel: an object that serves the clock (monotonic, wall) and sleeps, if set
outside = [None]

def _sleep(d):
    if d < 0:
        raise ValueError("sleep length must be non-negative")
    k = K.current()
    if k is not None and k.running:
        k.sleep(d)
    elif k is None and outside[0] is not None:
        outside[0].sleep(d)
    else:
        outside_clock[0] += d


def _make_time_module():
    m = types.ModuleType("time")
    for n in dir(real_time):
        if not n.startswith("__"):
            setattr(m, n, getattr(real_time, n))
    m.__doc__ = real_time.__doc__
    m.monotonic = lambda: float(_now())
    m.perf_counter = m.monotonic
    m.time = _wall
    m.monotonic_ns = _now_ns
    m.perf_counter_ns = m.monotonic_ns
    m.time_ns = lambda: int(_wall() * 1_000_000_000)
    m.sleep = _sleep
    return m


sim_thread = _make_thread_module()
sim_time = _make_time_module()

_sim_os = types.ModuleType("os")


def _make_threading_module():
    with open(real_threading.__file__, encoding="utf-8") as f:
        source = f.read()
    code = compile(source, SIMTHREADING, "exec", dont_inherit=True)
    m = types.ModuleType("threading")
    m.__file__ = SIMTHREADING

    def sim_import(name, globals=None, locals=None, fromlist=(), level=0):
        if name == "_thread":
            return sim_thread
        if name == "time":
            return sim_time
        if name == "os":
            return _sim_os
        return builtins.__import__(name, globals, locals, fromlist, level)

    b = dict(vars(builtins))
    b["__import__"] = sim_import
    m.__dict__["__builtins__"] = b
    exec(code, m.__dict__)
    return m


sim_threading = _make_threading_module()


# ---------------------------------------------------------------------------
# Loading the code under test
# ---------------------------------------------------------------------------

_codes = {}
_swap = {}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    "Imports made later, inside functions of the code under test, see the seams too."
    if not level and globals is not None:
        spec = globals.get("__spec__")
        swap = getattr(getattr(spec, "loader", None), "swap", None)
        if swap and name in swap:
            return swap[name]
    return _real_import(name, globals, locals, fromlist, level)


_real_import = builtins.__import__
builtins.__import__ = _import


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.swap = _swap

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _codes.get(self.path)
        if code is None:
            with open(self.path, "rb") as f:
                code = compile(f.read(), self.path, "exec", dont_inherit=True)
            _codes[self.path] = code
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "big" and not name.startswith("big."):
            return None
        parts = name.split(".")
        base = os.path.join(REPO, *parts)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(name, p), submodule_search_locations=[base])
        p = base + ".py"
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(name, p))
        return None


_finder = _Finder()

SEAMS = {"threading": sim_threading, "time": sim_time, "_thread": sim_thread}

# Import what the code under test imports, with the real modules, before any
# seam is installed, so that nothing unrelated binds the simulated ones.
for _m in ("heapq", "weakref", "functools", "inspect", "re", "itertools", "struct", "copy", "enum", "unicodedata", "types", "queue",
           "keyword", "string", "datetime", "collections", "collections.abc", "graphlib", "pathlib", "shutil",
           "operator", "abc", "contextlib", "calendar", "errno", "stat", "tempfile", "io", "bisect", "math", "warnings", "traceback", "random",
           "regex", "dateutil.parser", "dateutil.tz", "packaging.version", "typing", "dataclasses", "heapq", "numbers", "decimal", "fractions", "_strptime"):
    try:
        importlib.import_module(_m)
    except Exception:
        pass


def fresh(*names, seams=True, extra=None):
    """
    Import the named modules of the code under test anew (sharing nothing with
    earlier imports) and return them.
    """
    for n in list(sys.modules):
        if n == "big" or n.startswith("big."):
            del sys.modules[n]
    global _swap
    saved = {}
    swap = dict(SEAMS) if seams else {}
    if extra:
        swap.update(extra)
    _swap = swap
    for n, m in swap.items():
        saved[n] = sys.modules.get(n)
        sys.modules[n] = m
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    try:
        out = [importlib.import_module("big." + n) for n in names]
    finally:
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
    return out[0] if len(out) == 1 else out
