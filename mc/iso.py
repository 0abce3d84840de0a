"""Run a function in a forked child of a process that has never called the library (a fresh process with everything
imported), with its standard output and error captured at the file descriptor level."""
import os
import pickle
import signal
import sys
import tempfile
import time


class ChildTimeout(Exception):
    pass


def isolated(f, *args, timeout=60):
    """Returns (result, captured output)."""
    rfd, wfd = os.pipe()
    cap = tempfile.TemporaryFile()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(0)
            os.close(rfd)
            os.dup2(cap.fileno(), 1)
            os.dup2(cap.fileno(), 2)
            try:
                out = ("ok", f(*args))
            except BaseException as e:  # noqa: B902
                import traceback

                out = ("exc", f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4))
            sys.stdout.flush()
            sys.stderr.flush()
            with os.fdopen(wfd, "wb") as h:
                pickle.dump(out, h)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    data = b""
    t0 = time.time()
    import select

    try:
        while True:
            left = timeout - (time.time() - t0)
            ready, _, _ = select.select([rfd], [], [], max(left, 0))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                raise ChildTimeout()
            x = os.read(rfd, 1 << 16)
            if not x:
                break
            data += x
    finally:
        os.close(rfd)
        os.waitpid(pid, 0)
    cap.seek(0)
    text = cap.read().decode(errors="replace")
    cap.close()
    if not data:
        raise RuntimeError("child died: " + text[-500:])
    kind, val = pickle.loads(data)
    if kind == "exc":
        raise RuntimeError("child: " + val)
    return val, text
