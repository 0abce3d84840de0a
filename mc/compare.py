"""Conformance of one observed result with the reference model.

Every model value is an interval: the squared cosine +- an error bound proportional to the machine precision of
the requested dtype times the condition number of the system, mapped to decibels.  Permutations are accepted iff
their upper objective bound reaches the lower bound of the best assignment found by brute force.
"""
import functools

import numpy as np

from . import oracle
from .lib import NP, SI, TORCH, torch

import os

CFAC = float(os.environ.get("VERIF_CFAC", "300"))  # safety factor on the first order error bound (calibrated; the largest ratio observed is in evidence)


def eps_of(dtype):
    return float(np.finfo(np.float32 if dtype == "float32" else np.float64).eps)


_CACHE = {}


def model(ref, est, L, zero_mean, load_diag, with_sar):
    key = (ref.tobytes(), est.tobytes(), ref.shape, est.shape, L, bool(zero_mean), load_diag, with_sar)
    if key not in _CACHE:
        if len(_CACHE) > 256:
            _CACHE.clear()
        _CACHE[key] = oracle.Model(ref, est, L, zero_mean, load_diag, with_sar)
    return _CACHE[key]


class Cells:
    """Interval matrices (K, M) in dB for one item."""

    def __init__(self, ref, est, L, dtype, zero_mean=False, load_diag=None, clamp_db=None, with_sar=True, cfac=CFAC,
                 widen=None):
        m = model(np.asarray(ref, dtype=np.float64), np.asarray(est, dtype=np.float64), L, zero_mean, load_diag,
                  with_sar)
        self.m, self.K, self.M, self.clamp = m, m.K, m.M, clamp_db
        e = cfac * eps_of(dtype)
        self.c, self.t = {}, {}
        # with an offset the mean removal itself cancels
        amp = 1.0
        if zero_mean:
            for x in (ref, est):
                x = np.asarray(x, dtype=np.float64)
                d = np.sqrt(((x - x.mean(-1, keepdims=True)) ** 2).sum(-1))
                n = np.sqrt((x**2).sum(-1))
                with np.errstate(all="ignore"):
                    q = n / d
                amp = max(amp, float(np.max(np.where(np.isfinite(q), q, 1.0))))
        self.c["sdr"] = m.cs
        self.t["sdr"] = self._tol(m.cs, e * amp, m.cond_sdr)
        self.undefined = {"sdr": np.zeros(m.cs.shape, bool)}
        if with_sar:
            ca = np.broadcast_to(m.ca, (self.K, self.M))
            ta = self._tol(ca, e * amp, m.cond)
            with np.errstate(all="ignore"):
                ci = m.cs / ca
                ti = self.t["sdr"] / ca + ci * ta / ca
            self.c.update(sir=ci, sar=ca)
            self.t.update(sir=ti, sar=ta)
            # SIR of an estimate without target nor interference is not defined
            self.undefined["sir"] = ca <= 2 * ta
            self.undefined["sar"] = np.zeros(ca.shape, bool)
        if widen is not None:
            # accuracy documented for an approximate solver, as a tolerance on the squared cosine
            for kind in self.c:
                self.t[kind] = self.t[kind] + widen(kind, self.c[kind])
        self.eps = eps_of(dtype)

    @staticmethod
    def _tol(c, e, cond):
        if not np.isfinite(cond):
            return np.full(np.shape(c), 1.0)
        with np.errstate(all="ignore"):
            return np.nan_to_num(e * cond * np.sqrt(np.clip(c, 0, 1)) + (e * cond) ** 2, nan=1.0)

    def interval(self, kind):
        """(lo, hi) in dB after clamping, including the rounding of the result itself."""
        c, t = self.c[kind], self.t[kind]
        with np.errstate(all="ignore"):
            lo = oracle.to_db(c - t, self.clamp)
            hi = oracle.to_db(c + t, self.clamp)
        bad = ~np.isfinite(c) | self.undefined[kind]
        lo = np.where(bad, -np.inf, lo)
        hi = np.where(bad, np.inf, hi)
        with np.errstate(all="ignore"):
            u = 16 * self.eps * (1.0 + np.nan_to_num(np.maximum(np.abs(lo), np.abs(hi)), posinf=0.0))
        return lo - u, hi + u


def kinds_of(fn):
    base = fn[3:] if fn.startswith("ns:") else fn
    return ("sdr", "sir", "sar") if base.endswith("bss_eval_sources") else ("sdr",)


def is_loss(fn):
    return "loss" in fn


def mode_of(fn, kw):
    """perm | diag | pairwise"""
    base = fn[3:] if fn.startswith("ns:") else fn
    if base.startswith("pairwise_"):
        return "pairwise"
    if base.endswith("bss_eval_sources"):
        return "perm" if kw.get("compute_permutation", True) else "diag"
    if base in ("sdr_loss", "si_sdr_loss"):
        return "pairwise" if kw.get("pairwise", False) else "diag"
    return "perm"


def n_outputs(fn, kw):
    base = fn[3:] if fn.startswith("ns:") else fn
    if base.endswith("bss_eval_sources"):
        return 4 if kw.get("compute_permutation", True) else 3
    if base in ("sdr", "si_sdr"):
        return 2 if kw.get("return_perm", False) else 1
    return 1


def sign_of(fn, kw):
    if is_loss(fn):
        return -1.0
    return -1.0 if kw.get("change_sign", False) else 1.0


def flen(fn, kw):
    base = fn[3:] if fn.startswith("ns:") else fn
    return 1 if "si_" in base else kw.get("filter_length", 512)


def expected_shapes(fn, kw, bshape, K, M):
    mode = mode_of(fn, kw)
    s = tuple(bshape) + ((K, M) if mode == "pairwise" else (min(K, M),))
    return [s] * n_outputs(fn, kw)


def check_structure(r, res, fn, kw, bshape, K, M, backend, dtype, label):
    """Number of outputs, kind, dtype and shape.  True when the values can be looked at."""
    if res.exc is not None:
        r.fail(f"{label}: unexpected {type(res.exc).__name__}: {str(res.exc)[:160]}")
        return False
    shapes = expected_shapes(fn, kw, bshape, K, M)
    if len(res.outs) != len(shapes) or res.tuple != (len(shapes) > 1):
        r.fail(f"{label}: returned {len(res.outs)} values (tuple={res.tuple}), expected {len(shapes)}")
        return False
    raw = res.raw if res.tuple else (res.raw,)
    for i, (x, s) in enumerate(zip(raw, shapes)):
        isperm = mode_of(fn, kw) == "perm" and i == len(shapes) - 1 and len(shapes) in (2, 4)
        if backend == TORCH:
            if not isinstance(x, torch.Tensor):
                r.fail(f"{label}: output {i} is a {type(x).__name__}, not a tensor")
                return False
        elif not isinstance(x, np.ndarray) and not (isinstance(x, np.generic) and s == ()):
            r.fail(f"{label}: output {i} is a {type(x).__name__}, not an array")
            return False
        if tuple(x.shape) != tuple(s):
            r.fail(f"{label}: output {i} has shape {tuple(x.shape)}, expected {tuple(s)}")
            return False
        dt = str(x.dtype).replace("torch.", "")
        if isperm:
            if not dt.startswith("int"):
                r.fail(f"{label}: permutation has dtype {dt}")
                return False
        elif dtype is not None and dt != dtype:
            r.fail(f"{label}: output {i} has dtype {dt}, expected {dtype}")
            return False
    return True


def outside(val, lo, hi):
    """NaN counts as outside."""
    return not (lo <= val <= hi)


def check_item(r, cells, fn, kw, outs, label, idx, strict_perm=True):
    """outs: list of arrays of one item (no batch dimension)."""
    kinds, mode, sgn = kinds_of(fn), mode_of(fn, kw), sign_of(fn, kw)
    K, M = cells.K, cells.M
    perm = None
    if mode == "perm":
        if len(outs) > len(kinds):
            perm = [int(x) for x in outs[-1]]
            if not oracle.valid_perm(perm, K, M):
                r.fail(f"{label}: item {idx}: not a one-to-one assignment", perm=perm)
                return
            cand = [oracle.pairs_of(perm, K, M)]
        score_kind = "sir" if len(kinds) == 3 else "sdr"
        lo, hi = cells.interval(score_kind)
        if min(K, M) > 6:
            best = oracle.best_assignment(lo)[0]
            if perm is None:
                cand = [oracle.best_assignment(lo + hi)[1]]
        else:
            if perm is None:
                cand = [p for p, _ in oracle.assignments(K, M)]
            best = max(sum(lo[k, m] for k, m in p) for p, _ in oracle.assignments(K, M))

        def near_opt(p):
            return sum(hi[k, m] for k, m in p) >= best

        okp = [p for p in cand if near_opt(p)]
        if not okp:
            r.fail(f"{label}: item {idx}: assignment is not optimal", perm=perm,
                   score=oracle.to_db(cells.c[score_kind], cells.clamp))
            return
    elif mode == "diag":
        okp = [[(k, k) for k in range(K)]]
    else:
        okp = [[(k, m) for k in range(K) for m in range(M)]]
    firsterr = None
    for p in okp:
        err = None
        for kind, out in zip(kinds, outs):
            lo, hi = cells.interval(kind)
            v = sgn * np.asarray(out, dtype=np.float64).ravel()
            w = [hi[k, m] - lo[k, m] for k, m in p]
            r.add("cells", len(w))
            r.add("cells_pinned_within_0.01dB", sum(1 for x in w if x <= 0.01))
            r.add("cells_pinned_within_1dB", sum(1 for x in w if x <= 1))
            for j, (k, m) in enumerate(p):
                if cells.undefined[kind][k, m]:
                    r.add("undefined_cells")
                    continue
                if outside(v[j], lo[k, m], hi[k, m]):
                    err = dict(kind=kind, pair=(k, m), got=float(v[j]), lo=float(lo[k, m]), hi=float(hi[k, m]))
                    break
            if err:
                break
        if err is None:
            return
        firsterr = firsterr or err
    r.fail(f"{label}: item {idx}: value differs from the definition", **firsterr)


def check_call(r, res, fn, kw, ref, est, backend, dtype, label, cfac=CFAC, dtype_out="same", widen=None):
    """Full conformance of a call on (..., K, T), (..., M, T) signals (already rounded to dtype)."""
    bshape = ref.shape[:-2]
    K, M = ref.shape[-2], est.shape[-2]
    r.calls += 1
    r.states += max(1, int(np.prod(bshape)))
    if not check_structure(r, res, fn, kw, bshape, K, M, backend, dtype if dtype_out == "same" else dtype_out, label):
        return False
    n0 = len(r.violations)
    for i in np.ndindex(*bshape):
        cells = Cells(ref[i], est[i], flen(fn, kw), dtype, kw.get("zero_mean", False),
                      effective_load(fn, kw), kw.get("clamp_db"), with_sar=len(kinds_of(fn)) == 3, cfac=cfac, widen=widen)
        check_item(r, cells, fn, kw, [o[i] for o in res.outs], label, i)
        if len(r.violations) > n0:
            return False
    r.outcome(*res.outs)
    return True


def effective_load(fn, kw):
    return kw.get("load_diag")
