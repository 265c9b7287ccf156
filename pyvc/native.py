"""Runs contract harnesses on the real code (CPython + numpy), in a child process that can be killed."""
import os
import pickle
import select
import signal
import struct
import sys
import traceback
import warnings

import numpy as np

from .opaque import opaque_num, Stream


def preload(repo):
    """import the real package once (before forking); a broken package surfaces in the children"""
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    if repo not in sys.path:
        sys.path.insert(0, repo)
    devnull = os.open(os.devnull, os.O_WRONLY)
    save = os.dup(1)
    os.dup2(devnull, 1)
    try:
        import padasip  # noqa: F401
    except BaseException:
        pass
    finally:
        sys.stdout.flush()
        os.dup2(save, 1)
        os.close(save)
        os.close(devnull)

class Opq:
    """an opaque user function; the same numeric interpretation as the verifier's term evaluator"""
    def __init__(self, name, size):
        self.name, self.size = name, size
    def __call__(self, *args):
        vals, xs = [], []
        dims = 0
        arr = [np.asarray(a) for a in args]
        n = [a for a in arr if a.ndim == 1]
        for j in range(len(n[0]) if n else 0):
            vals.append([float(a[j]) for a in n])
        xs = [float(a) for a in arr if a.ndim == 0]
        nb = max(1, len(n))
        if not n:
            vals = [[0.0]]
        if self.size is None:
            return opaque_num(self.name, nb, vals, xs)
        return np.array([opaque_num(self.name, nb, vals, xs + [i]) for i in range(int(self.size))])


class Bad:
    """a value that cannot be converted to a number"""
    def __repr__(self):
        return "Bad"


def mk(v):
    if isinstance(v, tuple) and v and v[0] == "@opq":
        return Opq(v[1], v[2])
    if isinstance(v, tuple) and v and v[0] == "@bad":
        return [Bad() for _ in range(v[1])]
    if isinstance(v, tuple) and v and v[0] == "@seq":
        return [mk(x) for x in v[1]]
    return v


def enc(v, d=0):
    if v is None or isinstance(v, (bool, str)):
        return ("c", v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            try:
                return ("a", np.array(v.tolist(), dtype=float), "O")
            except Exception:
                return ("x", "object array")
        if v.ndim == 0:
            return ("n", v.item() if v.dtype.kind in "fiub" else complex(v), str(v.dtype))
        return ("a", v, str(v.dtype))
    if isinstance(v, np.generic):
        if v.dtype.kind in "fiub":
            return ("n", v.item(), str(v.dtype))
        if v.dtype.kind == "U":
            return ("c", str(v))
        return ("x", str(v.dtype))
    if isinstance(v, (int, float)):
        return ("n", v, type(v).__name__)
    if isinstance(v, tuple):
        return ("t", [enc(x, d + 1) for x in v])
    if isinstance(v, list):
        return ("l", [enc(x, d + 1) for x in v])
    return ("x", type(v).__name__)


def serve(rfd, wfd):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    inp, out = os.fdopen(rfd, "rb"), os.fdopen(wfd, "wb")
    devnull = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(devnull, fd)
    mods = {}
    while True:
        h = inp.read(4)
        if len(h) < 4:
            break
        n = struct.unpack("<I", h)[0]
        src, fname, args = pickle.loads(inp.read(n))
        try:
            if src not in mods:
                env = {"__name__": "harness"}
                exec(compile(src, "<harness>", "exec"), env)
                mods[src] = env
            f = mods[src][fname]
            a = [mk(x) for x in args]
            Stream().install(np)
            r = f(*a)
            res = ("ret", enc(r))
        except BaseException as e:
            names = [c.__name__ for c in type(e).__mro__]
            tb = traceback.extract_tb(e.__traceback__)
            res = ("exc", names, str(e)[:300], "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "")
        b = pickle.dumps(res)
        out.write(struct.pack("<I", len(b)) + b)
        out.flush()


class Native:
    def __init__(self, repo, verif):
        self.repo = repo
        self.pid = None

    def start(self):
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(b)
                os.close(c)
                preload(self.repo)
                serve(a, d)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.pid, self.w, self.r = pid, b, c

    def stop(self):
        if self.pid is not None:
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass
            os.close(self.w)
            os.close(self.r)
            self.pid = None

    def call(self, src, fname, args, timeout=60):
        if self.pid is None:
            self.start()
        b = pickle.dumps((src, fname, args))
        try:
            self._write(struct.pack("<I", len(b)) + b)
            h = self._read(4, timeout)
            r = self._read(struct.unpack("<I", h)[0], timeout)
            return pickle.loads(r)
        except TimeoutError:
            self.stop()
            return ("hang",)
        except Exception as e:
            self.stop()
            return ("dead", str(e))

    def _write(self, b):
        while b:
            n = os.write(self.w, b)
            b = b[n:]

    def _read(self, n, timeout):
        out = b""
        while len(out) < n:
            r, _, _ = select.select([self.r], [], [], timeout)
            if not r:
                raise TimeoutError
            c = os.read(self.r, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
