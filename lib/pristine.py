"""A process that has run nothing yet.

The zygote is forked right after the code under test has been imported and before any case runs; every
request is answered by a child forked from it.  What earlier cases or calls left behind in module-level
state is therefore unknown to it: its answers are those of a fresh interpreter, at the price of a fork."""
import os
import pickle
import signal
import struct
import sys

_to = _from = None
_pid = None


def _send(fd, obj):
    raw = pickle.dumps(obj, protocol=4)
    raw = struct.pack("<Q", len(raw)) + raw
    view = memoryview(raw)
    while view:
        view = view[os.write(fd, view):]


def _read(fd, n):
    out = b""
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            return None
        out += part
    return out


def _recv(fd):
    head = _read(fd, 8)
    if head is None:
        return None
    raw = _read(fd, struct.unpack("<Q", head)[0])
    return None if raw is None else pickle.loads(raw)


def _serve(rd, wr, answer, seconds):
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        req = _recv(rd)
        if req is None:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                signal.alarm(seconds)
                _send(w, ("answer", answer(req)))
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        os.close(w)
        got = _recv(r)
        os.close(r)
        os.waitpid(pid, 0)
        _send(wr, got if got is not None else ("lost", None))


def start(answer, seconds=60):
    """Fork the zygote; answer(request) runs in a child of it."""
    global _to, _from, _pid
    if _pid is not None:
        return
    sys.stdout.flush()
    sys.stderr.flush()
    a, b = os.pipe(), os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(a[1])
            os.close(b[0])
            _serve(a[0], b[1], answer, seconds)
        finally:
            os._exit(0)
    os.close(a[0])
    os.close(b[1])
    _to, _from, _pid = a[1], b[0], pid


def running():
    return _pid is not None


def ask(req):
    """("answer", value) or ("lost", None) when the child did not finish."""
    global _pid
    try:
        _send(_to, req)
        got = _recv(_from)
    except OSError:
        got = None
    if got is None:
        _pid = None
        return ("lost", None)
    return got
