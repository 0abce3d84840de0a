"""Adapter: drives the real library in REPO through its public API only."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import torch  # noqa: E402

torch.set_num_threads(1)

IMPORT_ERROR = None
try:
    import fast_bss_eval as fbe  # noqa: E402

    assert os.path.realpath(fbe.__file__).startswith(os.path.realpath(REPO) + os.sep), fbe.__file__
except AssertionError:
    raise
except BaseException as e:  # the package does not even import: every property is broken
    fbe = None
    IMPORT_ERROR = f"{type(e).__name__}: {e}"

NP, TORCH = "numpy", "torch"
BACKENDS = (NP, TORCH)
DTYPES = ("float64", "float32")

REF_FIRST = ("bss_eval_sources", "sdr", "si_bss_eval_sources", "si_sdr")
EST_FIRST = ("sdr_loss", "sdr_pit_loss", "si_sdr_loss", "si_sdr_pit_loss")
FUNCS = REF_FIRST + EST_FIRST
SI = ("si_bss_eval_sources", "si_sdr", "si_sdr_loss", "si_sdr_pit_loss")


class Res:
    """Outcome of one call."""

    __slots__ = ("exc", "outs", "raw", "tuple")

    def __init__(self, exc=None, raw=None):
        self.exc, self.raw = exc, raw
        self.outs, self.tuple = None, None
        if exc is None:
            self.tuple = isinstance(raw, tuple)
            seq = raw if self.tuple else (raw,)
            self.outs = [to_np(x) for x in seq]

    @property
    def ok(self):
        return self.exc is None

    def excname(self):
        return None if self.exc is None else type(self.exc).__name__


def to_np(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().numpy().copy()
    return np.array(x)


def conv(x, backend, dtype):
    """float64/int numpy array -> array of the requested backend and dtype (fresh memory)."""
    a = np.array(x, dtype=dtype)
    return a if backend == NP else torch.from_numpy(a)


def resolve(fn, backend=None):
    """'sdr' -> the dispatching public function; 'ns:pairwise_sdr_loss' -> the one exported by the
    backend's own namespace (fast_bss_eval.numpy / fast_bss_eval.torch)."""
    if fn.startswith("ns:"):
        return getattr(getattr(fbe, backend), fn[3:])
    return getattr(fbe, fn)


def is_ref_first(fn):
    fn = fn[3:] if fn.startswith("ns:") else fn
    return fn in REF_FIRST or fn == "square_cosine_metrics"


def call_raw(fn, backend, ref, est, **kw):
    """Call with objects that are already of the right backend."""
    try:
        f = resolve(fn, backend)
        args = (ref, est) if is_ref_first(fn) else (est, ref)
        return Res(raw=f(*args, **kw))
    except Exception as e:
        return Res(exc=e)


def call(fn, backend, dtype, ref, est, **kw):
    return call_raw(fn, backend, conv(ref, backend, dtype), conv(est, backend, dtype), **kw)


def kwargs_for(fn, **kw):
    """Drop the keyword arguments a function does not take (per its documented signature)."""
    base = fn[3:] if fn.startswith("ns:") else fn
    allowed = {
        "bss_eval_sources": "filter_length use_cg_iter zero_mean clamp_db compute_permutation load_diag",
        "sdr": "filter_length use_cg_iter zero_mean clamp_db load_diag return_perm change_sign",
        "sdr_loss": "filter_length use_cg_iter zero_mean clamp_db load_diag pairwise",
        "sdr_pit_loss": "filter_length use_cg_iter zero_mean clamp_db load_diag",
        "si_bss_eval_sources": "zero_mean clamp_db compute_permutation load_diag",
        "si_sdr": "zero_mean clamp_db return_perm change_sign",
        "si_sdr_loss": "zero_mean clamp_db pairwise",
        "si_sdr_pit_loss": "zero_mean clamp_db",
        "pairwise_sdr_loss": "filter_length use_cg_iter zero_mean clamp_db load_diag",
        "pairwise_si_sdr_loss": "zero_mean clamp_db",
    }[base].split()
    return {k: v for k, v in kw.items() if k in allowed}
