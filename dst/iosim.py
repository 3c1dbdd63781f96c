"""Controlled processes: a forked child whose file operations all ask a controller for permission.

The controller (the simulator, in the parent) decides at each operation who goes next and what goes wrong. Only one
process is ever runnable, so an execution is a pure function of the scenario. The disk is a scratch directory: what has
reached write(2) survives a crash of the process, what sits in its buffers does not."""
import builtins
import errno
import io
import os
import pickle
import select
import signal
import struct
import sys
import traceback

from . import common as C
from .common import HarnessError

WALL = 180  # seconds of silence after which a controlled process counts as hanging


class Gate:
    """In the child: asks the controller at each operation."""

    def __init__(self, root, rfd, wfd, pid):
        self.root = os.path.realpath(root)
        self.rfd, self.wfd = rfd, wfd
        self.pid = pid
        self.full = False
        self.busy = False

    def send(self, obj):
        b = pickle.dumps(obj)
        b = struct.pack(">I", len(b)) + b
        while b:
            n = _os_write(self.wfd, b)
            b = b[n:]

    def recv(self):
        def exact(n):
            out = b""
            while len(out) < n:
                c = _os_read(self.rfd, n - len(out))
                if not c:
                    os._exit(99)
                out += c
            return out
        n, = struct.unpack(">I", exact(4))
        return pickle.loads(exact(n))

    def inside(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(self.root, p))
        if p == self.root or p.startswith(self.root + os.sep):
            return os.path.relpath(p, self.root)
        return None

    def point(self, op, rel, size=0):
        """One operation is about to happen. Returns None or a fault to be applied by the caller."""
        if self.full and op in ("create", "mkdir", "write", "link"):
            raise OSError(errno.ENOSPC, "No space left on device (simulated)", rel)
        self.send({"t": "op", "op": op, "path": rel, "size": size})
        f = self.recv()
        if not f:
            return None
        kind = f["kind"]
        if kind == "crash":
            os._exit(137)
        if kind == "interrupt":
            raise KeyboardInterrupt()
        if kind == "nomem":
            raise MemoryError("simulated")
        if kind == "eio":
            raise OSError(errno.EIO, "Input/output error (simulated)", rel)
        if kind == "enospc":
            self.full = f.get("sticky", False)
            if op != "write":
                raise OSError(errno.ENOSPC, "No space left on device (simulated)", rel)
        return f


_os_write, _os_read = os.write, os.read


class SimRaw(io.RawIOBase):
    """Unbuffered file: each system call is an operation."""

    def __init__(self, gate, path, rel, mode):
        super().__init__()
        self.gate, self.rel = gate, rel
        self.no_space = False
        self.name = path
        self.mode = mode
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}
        base = [c for c in mode if c in "rwax"][0]
        fl = flags[base]
        if "+" in mode:
            fl = (fl & ~os.O_WRONLY) | os.O_RDWR
        self._w = base != "r" or "+" in mode
        self._r = base == "r" or "+" in mode
        exists = os.access(path, os.F_OK)
        f = gate.point("open" if base == "r" else "reopen" if exists else "create", rel)
        self.fd = os.open(path, fl | os.O_CLOEXEC, 0o666)
        if f and f["kind"] == "crash-after":
            os._exit(137)
        if base == "a":
            os.lseek(self.fd, 0, os.SEEK_END)

    def fileno(self):
        return self.fd

    def readable(self): return self._r
    def writable(self): return self._w
    def seekable(self): return True

    def readinto(self, b):
        self.gate.point("read", self.rel)
        data = _os_read(self.fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)
        if self.no_space:  # the rest of a write that was cut short by a full disk
            self.no_space = False
            raise OSError(errno.ENOSPC, "No space left on device (simulated)", self.rel)
        f = self.gate.point("write", self.rel, len(b))
        if f is None:
            return _os_write(self.fd, b)
        n = min(len(b), int(len(b) * f.get("part", 0.5)))
        kind = f["kind"]
        if kind == "torn":
            if n:
                _os_write(self.fd, b[:n])
            os._exit(137)
        if kind == "crash-after":
            _os_write(self.fd, b)
            os._exit(137)
        if kind == "short":
            return _os_write(self.fd, b[:max(1, n)])
        if kind == "enospc":
            if n and n < len(b):  # like the system call: what fits is written, the next attempt fails
                self.no_space = not self.gate.full
                return _os_write(self.fd, b[:n])
            self.gate.full = self.gate.full or f.get("sticky", False)
            raise OSError(errno.ENOSPC, "No space left on device (simulated)", self.rel)
        return _os_write(self.fd, b)

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.gate.point("truncate", self.rel)
        os.ftruncate(self.fd, size)
        return size

    def close(self):
        if not self.closed:
            super().close()
            os.close(self.fd)


def install(gate):
    """Put the gate under Python's file operations (in a child that will never return)."""
    real_open = io.open

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rel = gate.inside(file)
        if rel is None or opener is not None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = SimRaw(gate, os.fspath(file), rel, mode.replace("b", "").replace("t", ""))
        if buffering == 0 and "b" in mode:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if raw._w and raw._r:
            buf = io.BufferedRandom(raw, size)
        elif raw._w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        t.mode = mode
        return t

    builtins.open = sim_open
    io.open = sim_open

    def wrap(name, op, two=False):
        real = getattr(os, name)

        def f(path, *a, **kw):
            rel = gate.inside(path) if not kw.get("dir_fd") else None
            rel2 = None
            if two:
                other = a[0] if a else kw.get("dst")
                rel2 = gate.inside(other)
                rel = rel2 if rel2 is not None else rel
            if rel is None:
                return real(path, *a, **kw)
            fault = gate.point(op, rel)
            res = real(path, *a, **kw)
            if fault and fault["kind"] == "crash-after":
                os._exit(137)
            return res
        f.__name__ = name
        setattr(os, name, f)

    for name, op in (("mkdir", "mkdir"), ("remove", "remove"), ("unlink", "remove"), ("rmdir", "remove"),
                     ("stat", "stat"), ("lstat", "stat"), ("listdir", "stat"), ("scandir", "stat"), ("truncate", "truncate")):
        wrap(name, op)
    for name, op in (("replace", "replace"), ("rename", "replace"), ("link", "link"), ("symlink", "link")):
        wrap(name, op, two=True)
    real_os_open = os.open

    def os_open(path, flags, *a, **kw):
        rel = gate.inside(path)
        if rel is not None and sys._getframe(1).f_code.co_filename != __file__:
            gate.point("create" if flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR) else "open", rel)
        return real_os_open(path, flags, *a, **kw)
    os.open = os_open
    os.getpid = lambda: gate.pid
    import time
    clock = [1.6e9 + gate.pid]

    def now():
        clock[0] += 0.001
        return clock[0]
    time.time = now


class Proc:
    """A controlled process. States: 'op' (waits for permission of self.op), 'done', 'crashed'."""

    def __init__(self, fn, root, simpid=1000, name=""):
        self.name = name
        self.state = "new"
        self.ops = []
        self.op = None
        self.result = self.error = None
        self.injected = None
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r1)
                os.close(w2)
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                os.chdir(root)
                sys.stdout = sys.stderr = io.StringIO()
                gate = Gate(root, r2, w1, simpid)
                gate.send({"t": "ready"})
                gate.recv()
                install(gate)
                try:
                    res = {"t": "done", "r": fn(gate)}
                except BaseException as e:
                    tb = e.__traceback__
                    res = {"t": "fail", "type": type(e).__name__, "oserror": isinstance(e, OSError) or isinstance(getattr(e, "__context__", None), OSError),
                           "msg": str(e)[:300], "repo": C.repo_frame(tb), "where": C.where(tb), "tb": traceback.format_exc()[-2500:],
                           "errno": getattr(e, "errno", None)}
                    try:
                        res["exc"] = pickle.dumps(e)
                    except BaseException:
                        res["exc"] = None
                gate.send(res)
            except BaseException:
                try:
                    gate.send({"t": "harness", "e": traceback.format_exc()})
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)
        self.rfd, self.wfd = r1, w2
        self.buf = b""
        self._next()

    def _recv(self):
        end = C.MONO() + WALL
        while True:
            if len(self.buf) >= 4:
                n, = struct.unpack(">I", self.buf[:4])
                if len(self.buf) >= 4 + n:
                    m = pickle.loads(self.buf[4:4 + n])
                    self.buf = self.buf[4 + n:]
                    return m
            left = end - C.MONO()
            if left <= 0:
                self.kill()
                return {"t": "hang"}
            rl, _, _ = select.select([self.rfd], [], [], min(5, left))
            if rl:
                c = _os_read(self.rfd, 1 << 16)
                if not c:
                    return {"t": "eof"}
                self.buf += c

    def _next(self):
        m = self._recv()
        t = m["t"]
        if t in ("op", "ready"):
            self.state = "op"
            self.op = m
            if t == "op":
                self.ops.append((m["op"], m["path"], m["size"]))
            return
        self.op = None
        if t == "done":
            self.state, self.result = "done", m["r"]
        elif t == "fail":
            self.state, self.error = "failed", m
        elif t == "eof":
            self.state = "crashed"
        elif t == "hang":
            self.state = "hang"
        else:
            self.reap()
            raise HarnessError(m["e"])
        self.reap()

    @property
    def alive(self):
        return self.state == "op"

    def go(self, fault=None):
        """Let the waiting operation happen (with the fault) and run until the next one."""
        b = pickle.dumps(fault)
        b = struct.pack(">I", len(b)) + b
        try:
            _os_write(self.wfd, b)
        except BrokenPipeError:
            pass
        self._next()

    def run(self, fault_at=None, fault=None):
        """Run alone to the end; the fault strikes at the given operation."""
        while self.alive:
            idx = len(self.ops) - 1
            if fault is not None and self.op["t"] == "op" and idx == fault_at and self.injected is None:
                self.injected = dict(fault, op=self.op["op"], path=self.op["path"])
                self.go(fault)
            else:
                self.go(None)
        return self

    def kill(self):
        for f in (lambda: os.killpg(self.pid, signal.SIGKILL), lambda: os.kill(self.pid, signal.SIGKILL)):
            try:
                f()
            except OSError:
                pass

    def reap(self):
        if self.pid is None:
            return
        self.kill() if self.state == "hang" else None
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        for fd in (self.rfd, self.wfd):
            try:
                os.close(fd)
            except OSError:
                pass
        self.pid = None

    def abandon(self):
        if self.pid is not None:
            self.kill()
            self.reap()


APPLICABLE = {  # which faults make sense at which operation
    "crash": None, "interrupt": None, "nomem": None, "eio": {"open", "read", "create", "reopen", "write", "mkdir", "replace", "link", "remove"},
    "enospc": {"create", "write", "mkdir", "link"}, "torn": {"write"}, "short": {"write"},
    "crash-after": {"create", "reopen", "write", "mkdir", "replace", "link", "remove"},
}


def applicable(kind, op):
    s = APPLICABLE[kind]
    return s is None or op in s


def choose_op(ops, fault, where, frac):
    """Index of the operation a fault strikes: among those it applies to, at the given fraction."""
    shared = ("sequence.dat", "experiment-tracker.csv")
    idx = [i for i, (op, path, size) in enumerate(ops) if applicable(fault["kind"], op)]
    if where == "shared":
        sub = [i for i in idx if any(s in (ops[i][1] or "") for s in shared)]
        idx = sub or idx
    elif where == "write":
        sub = [i for i in idx if ops[i][0] == "write"]
        idx = sub or idx
    elif where == "tail":
        idx = idx[len(idx) * 2 // 3:] or idx
    if not idx:
        return None
    return idx[min(len(idx) - 1, int(frac * len(idx)))]
