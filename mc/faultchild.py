"""Imports the package under import faults and calls the eight functions on numpy arrays.

Runs in a forked child of the harness (numpy 1, torch present but possibly hidden) or under another interpreter
(numpy 2, no torch).  Uses nothing of the harness.  Arrays travel as (dtype, shape, bytes)."""
import builtins
import os
import pickle
import sys
import warnings


def enc(a):
    import numpy as np

    a = np.asarray(a)
    return (str(a.dtype), a.shape, np.ascontiguousarray(a).tobytes())


def dec(t):
    import numpy as np

    return np.frombuffer(t[2], dtype=t[0]).reshape(t[1]).copy()


class Finder:
    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if any(name == n or name.startswith(n + ".") for n in self.names):
            raise ModuleNotFoundError(f"No module named {name!r} (injected)", name=name)
        return None


OPTIONAL_EXCLUDED = ("numpy", "scipy", "fast_bss_eval")


def torch_part(importer, name, fromlist, level):
    """Is this import made while loading the torch part (or of an optional package)?"""
    if importer == "fast_bss_eval.torch" or importer.startswith("fast_bss_eval.torch."):
        return True
    words = (name or "").split(".") + list(fromlist or ())
    if importer == "fast_bss_eval" and "torch" in words:
        return True
    top = (name or "").split(".")[0]
    return level == 0 and bool(top) and top not in OPTIONAL_EXCLUDED and top not in sys.stdlib_module_names


def purge(tops):
    for k in list(sys.modules):
        if k.split(".")[0] in tops:
            del sys.modules[k]


def main(repo, spec, calls):
    """spec: dict(missing=[names], nth=[indices of torch part imports that fail], version=str or None,
    kind=exception name).  Returns dict(events=..., loaded=..., results=[...])"""
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    missing = list(spec.get("missing", ()))
    nth = set(spec.get("nth", ()))
    exc = {"ImportError": ImportError, "ModuleNotFoundError": ModuleNotFoundError}[spec.get("kind", "ImportError")]
    purge({"fast_bss_eval"} | {m.split(".")[0] for m in missing if "." not in m})
    if missing:
        sys.meta_path.insert(0, Finder(missing))
    if spec.get("version"):
        import torch

        torch.__version__ = spec["version"]
    events = []
    real = builtins.__import__

    def hook(name, globals=None, locals=None, fromlist=(), level=0):
        imp = (globals or {}).get("__name__") or ""
        if imp == "fast_bss_eval" or imp.startswith("fast_bss_eval."):
            if level == 0 and any(name == m or name.startswith(m + ".") or any(f"{name}.{f}" == m for f in fromlist or ()) for m in missing):
                raise ModuleNotFoundError(f"No module named {name!r} (injected)", name=name)
            if torch_part(imp, name, fromlist, level):
                i = len(events)
                events.append((imp, name, tuple(fromlist or ()), level))
                if i in nth:
                    raise exc(f"injected failure of the import of {name!r} in {imp}")
        return real(name, globals, locals, fromlist, level)

    out = {"numpy": np.__version__, "results": [], "torch": None}
    sys.path.insert(0, repo)
    builtins.__import__ = hook
    try:
        try:
            import fast_bss_eval as f
        except BaseException as e:
            out["import_error"] = f"{type(e).__name__}: {e}"[:300]
            return out
        out["file"] = os.path.realpath(f.__file__)
        for fn, ref, est, kw in calls:
            args = (dec(ref), dec(est))
            if "loss" in fn:
                args = args[::-1]
            try:
                r = getattr(f, fn)(*args, **kw)
                t = isinstance(r, tuple)
                out["results"].append((t, [(type(x).__module__.split(".")[0], enc(x)) for x in (r if t else (r,))]))
            except BaseException as e:
                out["results"].append(f"{type(e).__name__}: {e}"[:300])
        if spec.get("use_torch"):
            import torch

            x = torch.from_numpy(dec(calls[0][1])), torch.from_numpy(dec(calls[0][2]))
            try:
                out["torch"] = enc(f.sdr(x[0], x[1], filter_length=4).numpy())
            except BaseException as e:
                out["torch"] = f"{type(e).__name__}: {e}"[:300]
    finally:
        builtins.__import__ = real
        out["events"] = events
    return out


def serve():
    """Fork server: reads pickled (repo, spec, calls) lengths prefixed on stdin, one forked child per request."""
    import struct

    import numpy  # noqa: F401
    import scipy.fft  # noqa: F401
    import scipy.optimize  # noqa: F401

    inp, outp = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        req = pickle.loads(inp.read(struct.unpack("<Q", h)[0]))
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                d = pickle.dumps(main(*req))
                with os.fdopen(wfd, "wb") as w:
                    w.write(d)
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as r:
            d = r.read()
        os.waitpid(pid, 0)
        outp.write(struct.pack("<Q", len(d)) + d)
        outp.flush()


if __name__ == "__main__":
    serve()
