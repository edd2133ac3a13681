"""Small real processes driven step by step, for histories that involve several processes.

Every actor is a forked child that executes commands sent over a pipe; a family of actors either shares one
multiprocessing resource tracker (as children of one multiprocessing parent do) or every actor has its own
(as independent programs have). Each family lives in a forked root process, so that nothing leaks into the worker.
"""
import os
import pickle
import select
import signal
import struct
import sys
import traceback

TIMEOUT = 60.0


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = memoryview(struct.pack("<Q", len(data)) + data)
    while data:
        data = data[os.write(fd, data):]


def _recv(fd, timeout=None):
    """One message, or None at end of file (or after the timeout)."""
    buf = bytearray()
    need = 8
    size = None
    while len(buf) < need:
        if timeout is not None and not select.select([fd], [], [], timeout)[0]:
            return None
        part = os.read(fd, need - len(buf))
        if not part:
            return None
        buf += part
        if size is None and len(buf) == 8:
            size = struct.unpack("<Q", buf)[0]
            buf, need = bytearray(), size
    return pickle.loads(buf)


class Died(Exception):
    pass


class Remote(Exception):
    """An exception raised inside an actor: .kind is its class name."""

    def __init__(self, kind, text):
        Exception.__init__(self, "%s: %s" % (kind, text))
        self.kind = kind


class Actor(object):
    def __init__(self, handler, others=()):
        cr, cw = os.pipe()
        rr, rw = os.pipe()
        er, ew = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for a in others:
                    a.close_fds()
                os.close(cw), os.close(rr), os.close(er)
                os.dup2(ew, 2)
                if ew != 2:
                    os.close(ew)
                sys.stderr = os.fdopen(2, "w", closefd=False)
                state = {}
                while True:
                    msg = _recv(cr)
                    if msg is None or msg[0] == "exit":
                        break
                    try:
                        _send(rw, ("ok", handler(state, *msg)))
                    except Exception as exc:
                        _send(rw, ("err", type(exc).__name__, str(exc), traceback.format_exc()[-600:]))
            finally:
                os._exit(0)
        os.close(cr), os.close(rw), os.close(ew)
        self.pid, self.cw, self.rr, self.er, self.open = pid, cw, rr, er, True

    def close_fds(self):
        if self.open:
            for fd in (self.cw, self.rr, self.er):
                os.close(fd)

    def call(self, *msg):
        try:
            _send(self.cw, msg)
            out = _recv(self.rr, TIMEOUT)
        except (BrokenPipeError, ConnectionError):
            out = None
        if out is None:
            status = self.reap()
            raise Died("a process died with %s during %s" % (status, msg[0]))
        if out[0] == "err":
            raise Remote(out[1], out[2] + " | " + out[3].replace("\n", " ~ "))
        return out[1]

    def reap(self):
        if not self.open:
            return "exit"
        pid, st = os.waitpid(self.pid, os.WNOHANG)
        n = 0
        while pid == 0 and n < 200:
            select.select([], [], [], 0.01)
            n += 1
            pid, st = os.waitpid(self.pid, os.WNOHANG)
        if pid == 0:
            os.kill(self.pid, signal.SIGKILL)
            pid, st = os.waitpid(self.pid, 0)
        self.close_fds()
        self.open = False
        return "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit code %d" % os.WEXITSTATUS(st)

    def exit(self):
        """Normal end of the process; returns once its own resource tracker (which holds its stderr) is gone too."""
        if not self.open:
            return
        try:
            _send(self.cw, ("exit",))
        except OSError:
            pass
        os.waitpid(self.pid, 0)
        while select.select([self.er], [], [], 10.0)[0]:
            if not os.read(self.er, 65536):
                break
        self.close_fds()
        self.open = False


def in_root(fn, shared):
    """Run fn() in a forked root process; returns its result or raises what it reported."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if shared:
                from multiprocessing import resource_tracker

                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)
                sys.stderr = os.fdopen(2, "w", closefd=False)
                resource_tracker.ensure_running()
            try:
                _send(w, ("ok", fn()))
            except BaseException as exc:
                _send(w, (type(exc).__name__, str(exc), traceback.format_exc()[-1500:]))
        finally:
            os._exit(0)
    os.close(w)
    out = _recv(r, 300.0)
    os.close(r)
    if out is None:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    from .core import HarnessError, Violation

    if out is None:
        raise HarnessError("the root process gave no answer")
    if out[0] == "ok":
        return out[1]
    if out[0] in ("Violation", "Died", "Remote"):
        raise Violation(out[1])
    raise HarnessError("%s: %s %s" % out)
