"""Running code in forked children under the file-system fault injector (shim.c)."""
import ctypes
import os
import pickle
import sys
import tempfile
import traceback

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.mc_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int]
        _lib.mc_mark.argtypes = [ctypes.c_char_p]
        _lib.mc_count.restype = ctypes.c_long
    return _lib


def mark(s):
    lib().mc_mark(s.encode())


def run(fn, workdir, prefix=None, crash_at=-1, mode=0, timeout=120):
    """Run ``fn()`` in a forked child; with ``prefix`` the injector counts every mutation
    below it and ends the process at operation ``crash_at``.  Returns (status, result, log)
    where status is 'ok', 'crash', 'error' (exception; result is its text) or 'dead'."""
    fd, res = tempfile.mkstemp(dir=workdir)
    os.close(fd)
    lf, logp = tempfile.mkstemp(dir=workdir)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            import signal
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, timeout)
            if prefix:
                lib().mc_arm(prefix.encode(), crash_at, mode, lf)
            try:
                out = ("ok", fn())
            except Exception as e:  # noqa: BLE001
                out = ("error", f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}")
            if prefix:
                lib().mc_disarm()
            with open(res, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    os.close(lf)
    log = []
    with open(logp) as f:
        for line in f:
            p = line.rstrip("\n").split("\t")
            if len(p) == 4:
                log.append((int(p[0]), p[1], p[2], int(p[3])))
    out = ("dead", st)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
        out = ("crash", None)
    elif os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        with open(res, "rb") as f:
            out = pickle.load(f)
    os.unlink(res)
    os.unlink(logp)
    return out[0], out[1], log
