"""
The file system seam.  The code under test works on a real directory tree in a
scratch directory (as an unprivileged user where possible), but every call of
it to the operating system goes through here: it is a scheduling point, it can
be made to fail, it can be the point at which the process dies, and the time
stamps it leaves come from the simulated clock.
"""
import builtins
import errno
import io
import os
import pwd
import stat as stat_

from . import kernel as K, seams

CALLS = ["stat", "lstat", "access", "mkdir", "rmdir", "unlink", "remove", "rename", "replace", "link", "symlink", "utime", "chmod",
         "open", "listdir", "scandir", "truncate", "chdir", "getcwd", "readlink"]

EPOCH = 1_700_000_000


class SimCrash(BaseException):
    "The simulated process dies at this call."


def drop_privileges():
    "Become an unprivileged user, so that nothing outside the scratch directory can be damaged."
    if os.getuid() != 0:
        return False
    d = os.path.abspath(seams.REPO)
    while True:
        st = os.stat(d)
        if not (st.st_mode & stat_.S_IXOTH and st.st_mode & stat_.S_IROTH):
            return False
        if d == "/":
            break
        d = os.path.dirname(d)
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except OSError:
        return False
    return True


class Patched:
    "Replaces the functions of os and open() by f(name, real, args, kwargs) while it is active."
    def __init__(self, call, files=True):
        self.call = call
        self.real = {n: getattr(os, n) for n in CALLS}
        self.real_open = builtins.open
        self.files = files

    def __enter__(self):
        for n, real in self.real.items():
            def f(*a, _n=n, _real=real, **kw):
                return self.call(_n, _real, a, kw)
            setattr(os, n, f)
        if self.files:
            real_open = self.real_open
            def open_(*a, **kw):
                return self.call("fopen", real_open, a, kw)
            builtins.open = open_
            io.open = open_
        return self

    def __exit__(self, *args):
        for n, real in self.real.items():
            setattr(os, n, real)
        builtins.open = self.real_open
        io.open = self.real_open


def wipe(path):
    "Remove a tree; only ever called with paths inside the scratch directory."
    os.chmod(path, 0o755)
    for e in sorted(os.scandir(path), key=lambda e: e.name):
        if e.is_dir(follow_symlinks=False):
            wipe(e.path)
            os.rmdir(e.path)
        else:
            os.unlink(e.path)


def snapshot(root):
    "{relative path: description} of everything below root."
    out = {}
    stack = [("", root)]
    while stack:
        rel, d = stack.pop()
        try:
            entries = list(os.scandir(d))
        except OSError:
            continue
        for e in entries:
            r = rel + e.name
            if e.is_symlink():
                out[r] = ("l", os.readlink(e.path))
            elif e.is_dir():
                out[r] = ("d",)
                stack.append((r + "/", e.path))
            elif e.is_file():
                try:
                    fd = os.open(e.path, os.O_RDONLY)
                    try:
                        out[r] = ("f", os.read(fd, 1 << 16))
                    finally:
                        os.close(fd)
                except OSError:
                    out[r] = ("f", None)
            else:
                out[r] = ("p",)
    return out


def oserror(name, path):
    n = getattr(errno, name)
    return OSError(n, os.strerror(n), path)
