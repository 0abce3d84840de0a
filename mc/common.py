"""Shared executors."""
import itertools

import numpy as np

from . import compare, oracle, signals
from .engine import Skip
from .lib import BACKENDS, DTYPES, NP, TORCH, call, conv, fbe, kwargs_for  # noqa: F401

F32, F64 = "float32", "float64"


def rounded(x, dtype):
    """The values the library actually receives, as float64."""
    return np.asarray(x).astype(dtype).astype(np.float64)


def conf(r, fn, backend, dtype, ref, est, label="", cfac=compare.CFAC, widen=None, **kw):
    """One call compared in full with the reference model."""
    kw = {k: v for k, v in kw.items()}
    res = call(fn, backend, dtype, ref, est, **kw)
    lab = f"{fn}/{backend}/{dtype} {kw} {label}"
    return compare.check_call(r, res, fn, kw, rounded(ref, dtype), rounded(est, dtype), backend, dtype, lab, cfac=cfac, widen=widen)


def all_signals(T, alphabet=(-1, 0, 1), nonzero=True, canonical_sign=False):
    out = []
    for v in itertools.product(alphabet, repeat=T):
        nz = [x for x in v if x]
        if nonzero and not nz:
            continue
        if canonical_sign and nz and nz[0] < 0:
            continue
        out.append(v)
    return np.array(out, dtype=np.int64).reshape(-1, T)


def db_interval_exact(c, d, t):
    """Interval in dB of an exact squared cosine c (d = 1-c exactly) known up to +-t."""
    with np.errstate(all="ignore"):
        lo = 10 * (np.log10(np.maximum(c - t, 0)) - np.log10(np.minimum(d + t, 1)))
        hi = 10 * (np.log10(np.minimum(c + t, 1)) - np.log10(np.maximum(d - t, 0)))
    return lo, hi


def toeplitz_cond(refs, L):
    """Condition number of the unit normalized Gram matrix of the shifts of refs (..., K, T)."""
    refs = np.asarray(refs, dtype=np.float64)
    refs = refs / np.sqrt((refs**2).sum(-1, keepdims=True))
    A = oracle.shifts(refs, L)
    w = np.linalg.eigvalsh(np.swapaxes(A, -1, -2) @ A)
    with np.errstate(all="ignore"):
        return np.where(w[..., 0] > 0, w[..., -1] / w[..., 0], np.inf)


def check_bounds(r, got, lo, hi, label, describe):
    """Vectorized interval check; reports the first offending index."""
    got = np.asarray(got, dtype=np.float64)
    if got.shape != lo.shape:
        r.fail(f"{label}: shape {got.shape}, expected {lo.shape}")
        return False
    with np.errstate(all="ignore"):
        pad = 1e-12 + 16 * (2.0 ** -23 if "float32" in label else 2.0 ** -52) * np.where(
            np.isfinite(got), np.abs(got), 0.0)
        bad = ~((got >= lo - pad) & (got <= hi + pad))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        r.fail(f"{label}: {int(bad.sum())} of {bad.size} values differ from the exact definition",
               got=float(got[i]), lo=float(lo[i]), hi=float(hi[i]), **describe(i))
        return False
    return True


def ctol(dtype, cond=30.0, cfac=compare.CFAC):
    """Tolerance on a squared cosine for two computations of the same quantity."""
    return cfac * compare.eps_of(dtype) * cond


def cdiff(a, b):
    """Difference of two dB arrays as squared cosines; NaN in both is equality, NaN in one is +inf."""
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return float("inf")
    d = np.abs(oracle.from_db(a) - oracle.from_db(b))
    d = np.where(na, 0.0, d)
    return float(d.max())


def same_db(r, a, b, tol, label, **detail):
    d = cdiff(a, b)
    if not d <= tol:
        r.fail(f"{label}: values differ (squared cosine difference {d:.3g} > {tol:.3g})", a=np.asarray(a), b=np.asarray(b), **detail)
        return False
    return True


class Opts:
    """Draws the options a function accepts, each from a small alphabet (first value: not passed)."""

    ALPHA = dict(filter_length=(4, 1, 2), zero_mean=(None, True), clamp_db=(None, 8.0), load_diag=(None, 1e-3), use_cg_iter=(None,),
                 change_sign=(None, True), return_perm=(None, True), pairwise=(None, True), compute_permutation=(None, False))

    def __init__(self, **alpha):
        self.alpha = dict(self.ALPHA, **alpha)

    def draw(self, c, fn, dev=0, only=None, exclude=()):
        kw = {}
        names = list(kwargs_for(fn, **{k: 1 for k in self.alpha}))
        for k in names:
            if (only and k not in only) or k in exclude:
                continue
            v = c(k, self.alpha[k], dev)
            if v is not None:
                kw[k] = v
        return kw


def needs_square(fn, kw):
    return compare.mode_of(fn, kw) == "diag"


MANY = ((7, 7), (8, 8), (12, 12), (1, 9), (9, 1), (8, 5), (5, 8), (10, 3), (3, 10), (9, 11))


def many_space(c, kms, Ls, fns):
    fn, kw0 = c("fn", fns)
    km = c("KM", kms)
    L = c("L", Ls)
    kw = dict(kw0)
    if "si_" not in fn:
        kw["filter_length"] = L
    elif L != Ls[0]:
        raise Skip()
    if needs_square(fn, kw) and km[0] != km[1]:
        raise Skip()
    return dict(fn=fn, km=km, L=L, kw=kw, batch=c("batch", ((), (2,))), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_many(sc, r):
    """Many channels: the whole pipeline against the projection model, assignments against dynamic programming."""
    K, M = sc["km"]
    T = max(100, 3 * K * sc["L"])
    items = [signals.many(K, M, T, ("many", i), shift=i + 1) for i in range(int(np.prod(sc["batch"])) if sc["batch"] else 1)]
    ref, est = (np.stack([x[q] for x in items]).reshape(sc["batch"] + items[0][q].shape) for q in (0, 1))
    conf(r, sc["fn"], sc["backend"], sc["dtype"], ref, est, **sc["kw"])
