"""Run a function in a process that has done nothing before.

`start` forks a server from the check's process before it has called any of
Calkulate; every `call` is then answered by a fresh fork of that server, so that
nothing kept in the interpreter (caches, module variables, defaults, settings of
libraries) by earlier cases can have an influence.
"""
import ctypes
import importlib
import os
import pickle
import signal
import socket
import struct

from .engine import HarnessError

SOCK = None
PID = None


def _path():
    return os.path.join(os.environ["CALK_PBT_SCRATCH"], "pristine.sock")


def start():
    global PID
    if PID:
        return
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.bind(_path())
    s.listen(64)
    parent = os.getpid()
    PID = os.fork()
    if PID:
        s.close()
        return
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # end with the parent
        if os.getppid() != parent:
            os._exit(0)
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        devnull = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(devnull, fd)
        while True:
            c, _ = s.accept()
            if os.fork() == 0:
                s.close()
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                _answer(c)
                os._exit(0)
            c.close()
    finally:
        os._exit(1)


def stop():
    if PID:
        try:
            os.kill(PID, signal.SIGKILL)
            os.waitpid(PID, 0)
        except OSError:
            pass


def _send(c, obj):
    raw = pickle.dumps(obj)
    c.sendall(struct.pack("!Q", len(raw)) + raw)


def _receive(c):
    def exactly(n):
        out = b""
        while len(out) < n:
            part = c.recv(min(1 << 20, n - len(out)))
            if not part:
                raise HarnessError("the pristine process ended")
            out += part
        return out

    (n,) = struct.unpack("!Q", exactly(8))
    return pickle.loads(exactly(n))


def _answer(c):
    module, function, args = _receive(c)
    try:
        out = ("ok", getattr(importlib.import_module(module), function)(*args))
        raw = pickle.dumps(out)
    except Exception as e:
        out = ("error", f"{type(e).__name__}: {e}")
    _send(c, out)


def call(function, *args):
    """(True, result) or (False, text of the exception)."""
    if PID is None:
        raise HarnessError("pristine.start was not called")
    c = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    try:
        c.settimeout(120)
        c.connect(_path())
        _send(c, (function.__module__, function.__name__, args))
        kind, out = _receive(c)
    finally:
        c.close()
    return kind == "ok", out
