"""
Reference runs in a fresh process: a helper forked before the library was used
forks a new process for every request, so that nothing that was done before in
the observed process can be in its state.
"""
import importlib
import os
import pickle
import signal
import struct
import traceback

from . import core

_here = None


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, min(n - len(out), 1 << 20))
        if not b:
            raise EOFError
        out += b
    return out


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack("<q", _read(fd, 8))[0]))


def _work(out, req):
    mod, fn, args = req
    signal.alarm(50)
    try:
        r = "ok", getattr(importlib.import_module(mod), fn)(*args)
    except core.Violation as ex:
        r = "violation", str(ex)
    except BaseException as ex:
        r = "error", "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:])
    _send(out, r)


def start():
    """to be called before the library is used in this process"""
    global _here
    if _here is not None and _here[0] == os.getpid():
        return
    core.load()
    a, b = os.pipe(), os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(a[1])
            os.close(b[0])
            while True:
                req = _recv(a[0])
                kid = os.fork()
                if kid == 0:
                    try:
                        _work(b[1], req)
                    finally:
                        os._exit(0)
                _, status = os.waitpid(kid, 0)
                if status:
                    _send(b[1], ("error", "reference process ended with status %d" % status))
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(a[0])
    os.close(b[1])
    _here = os.getpid(), a[1], b[0]


def run(ctx, fn, *args):
    """result of fn(*args), a function of the check's module, in a fresh process"""
    start()
    _send(_here[1], (fn.__module__, fn.__name__, args))
    kind, r = _recv(_here[2])
    ctx.count("fresh_processes")
    if kind == "violation":
        raise core.Violation("in a fresh process: " + r)
    if kind == "error":
        raise core.Inconclusive(r)
    return r
