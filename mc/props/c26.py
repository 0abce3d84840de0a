"""C26: calls keep nothing, and their memory and number of steps stay within the documented orders."""
import gc
import os
import sys
import tracemalloc

import numpy as np

from .. import signals
from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import BACKENDS, DTYPES, FUNCS, NP, REPO, TORCH, call_raw, conv, torch

FN = FUNCS + ("ns:pairwise_sdr_loss", "ns:pairwise_si_sdr_loss")
PKG = os.path.realpath(os.path.join(REPO, "fast_bss_eval")) + os.sep
SLACK = 30_000  # bytes: python objects, dtype and plan caches of the libraries underneath
KIB = 1024


class Meter:
    """Bytes of arrays and tensors kept (net) and at the highest point (peak) since the start."""

    def __init__(self, backend):
        self.backend = backend

    def __enter__(self):
        gc.collect()
        tracemalloc.start()  # python objects and arrays
        self.base = tracemalloc.get_traced_memory()[0]
        if self.backend == TORCH:
            ag = torch.autograd
            ag._enable_profiler_legacy(ag.ProfilerConfig(ag.ProfilerState.CPU, False, True, False, False, False, torch._C._profiler._ExperimentalConfig()))
        return self

    def __exit__(self, *exc):
        gc.collect()
        now, peak = tracemalloc.get_traced_memory()
        tracemalloc.stop()
        self.net, self.peak = now - self.base, peak - self.base
        if self.backend == TORCH:
            ev = [e.cpu_memory_usage() for t in torch.autograd._disable_profiler_legacy() for e in t if e.kind() == "memory_alloc"]
            c = np.cumsum([0] + ev)
            self.net, self.peak = self.net + int(c[-1]), self.peak + int(c.max())


def data(K, M, T, B, backend, dtype, bad=None):
    """Cheap deterministic noise of any size."""
    n = int(np.prod(B)) if B else 1
    x = np.sin(np.arange(1, n * (K + M) * T + 1) ** 2 * 0.7390851332151607 % 6.283185307179586).reshape(tuple(B) + (K + M, T)) if n else np.zeros(tuple(B) + (K + M, T))
    ref, est = x[..., :K, :], x[..., K:, :]
    k = min(K, M)
    est[..., :k, :] += 2 * ref[..., :k, :]
    if bad == "nan":
        est[..., 0, 0] = np.nan
    if bad == "shape":
        est = est[..., :-1]
    return conv(ref, backend, dtype), conv(est, backend, dtype)


def one(fn, kw, backend, dtype, K, M, T, B, bad=None, grad=False):
    ref, est = data(K, M, T, B, backend, dtype, bad)
    if grad:
        ref.requires_grad_(True)
        est.requires_grad_(True)
    res = call_raw(fn, backend, ref, est, **kw)
    if grad and res.ok:
        s = sum(x.sum() for x in (res.raw if isinstance(res.raw, tuple) else (res.raw,)) if x.is_floating_point())
        s.backward()
    return res


def nbytes(res):
    if not res.ok:
        return 0
    return sum((x.element_size() * x.numel() if isinstance(x, torch.Tensor) else np.asarray(x).nbytes) for x in (res.raw if res.tuple else (res.raw,)))


def draw(c, Ls, cgs, flags=True, dev=0):
    fn = c("fn", FN)
    al = dict(filter_length=Ls, use_cg_iter=cgs)
    if not flags:
        al.update(zero_mean=(None,), clamp_db=(None,), load_diag=(None,), change_sign=(None,))
    return fn, Opts(**al).draw(c, fn, dev, exclude=() if flags else ("zero_mean", "clamp_db", "load_diag", "change_sign"))


# ---------------------------------------------------------------------------------------------------------------------
def keep_space(c, th):
    fn, kw = draw(c, (16, 1), (None, 2), dev=1)
    K, M = c("KM", ((2, 2), (3, 2), (2, 3)), dev=1)
    if needs_square(fn, kw) and K != M:
        raise Skip()
    b = c("backend", BACKENDS)
    how = c("how", ("values", "nan", "shape") + (("gradient", "nan, gradient") if b == TORCH else ()))
    return dict(fn=fn, kw=kw, K=K, M=M, backend=b, how=how, batch=c("batch", ((), (3,)), dev=1), dtype=c("dtype", DTYPES, dev=1))


def run_keep(sc, r):
    """Inputs are made, used and dropped inside; the result is kept, then dropped."""
    K, M, b, how = sc["K"], sc["M"], sc["backend"], sc["how"]
    a = (sc["fn"], sc["kw"], b, sc["dtype"], K, M)
    rest = dict(bad=how if how == "shape" else "nan" if "nan" in how else None, grad="gradient" in how)
    lab = f"{sc['fn']}/{b}/{sc['dtype']} {sc['kw']} K,M={K},{M} batch={sc['batch']} ({how})"
    one(*a, 300, sc["batch"], **rest)  # imports and first uses, with other data of another size
    res = None
    with Meter(b) as m:
        res = one(*a, 4000, sc["batch"], **rest)
        failed, size = not res.ok, nbytes(res)
        if failed or "gradient" in how:
            res = None
    r.calls += 2
    r.states += 1
    if how == "values" and failed:
        r.fail(lab + ": raises")
        return
    if m.net > 3 * size + SLACK:
        r.fail(lab + f": {m.net} bytes are kept after the call" + (" failed" if failed else f" although the result has {size}" if res is not None else ", all results dropped"))
        return
    if m.peak < 8 * (K + M) * 1000:
        raise RuntimeError(f"the meter does not see the memory: {lab} {m.peak}")
    r.outcome(sc["fn"], b, how, failed)


# ---------------------------------------------------------------------------------------------------------------------
def grow_space(c, th):
    fn, kw = draw(c, (6,), (None, 2), flags=False)
    b = c("backend", BACKENDS)
    how = c("how", ("values", "nan") + (("gradient", "nan, gradient") if b == TORCH else ()))
    vary = c("vary", ("samples", "taps", "items"))
    if vary == "taps" and "si_" in fn:
        raise Skip()
    if how != "values" and vary != "samples" and not th:
        raise Skip()
    return dict(fn=fn, kw=kw, backend=b, how=how, vary=vary, n=300 if th else 220)


def run_grow(sc, r):
    """Calls of ever other sizes (decreasing, so that a cache of bounded size is no growth)."""
    n, b, v, how = sc["n"], sc["backend"], sc["vary"], sc["how"]
    lab = f"{sc['fn']}/{b} {sc['kw']}: calls with ever other {v} ({how})"

    def do(i):
        kw = dict(sc["kw"])
        T, B = 60, ()
        if v == "samples":
            T = 2 * n + 20 - i
        elif v == "taps":
            kw["filter_length"] = n + 10 - i if b == NP or "use_cg_iter" in kw else n // 2 + 10 - i // 2
        else:
            B = (n + 10 - i,)
            T = 12
        one(sc["fn"], kw, b, DTYPES[i % 2], 2, 2, T, B, bad="nan" if "nan" in how else None, grad="gradient" in how)

    for i in range(n // 2 + 20):
        do(i)
    with Meter(b) as m:
        for i in range(n // 2 + 20, n):
            do(i)
    per = m.net / (n - n // 2 - 20)
    r.calls += n
    r.states += 1
    if per > 2500:
        r.fail(lab + f": {per:.0f} more bytes are kept with every call (after {n // 2 + 20} calls)")
        return
    r.outcome(sc["fn"], b, v, how)


# ---------------------------------------------------------------------------------------------------------------------
def peak_space(c, th):
    fn, kw = draw(c, (1, 16, 128, 700) if th else (1, 16, 700), (None, 3), flags=False)
    K, M = c("KM", ((2, 2), (1, 1), (2, 5), (5, 2), (6, 6), (16, 16)) if th else ((2, 2), (2, 5), (6, 6), (16, 16)))
    if needs_square(fn, kw) and K != M:
        raise Skip()
    T = c("T", (50, 2000, 30000) if th else (50, 1400, 9000))
    B = c("batch", ((), (8,), (2, 3)) if th else ((), (8,)))
    n = (B[0] if B else 1) * K * K
    L = kw.get("filter_length", 1)
    if n * L * L * (1 if "use_cg_iter" not in kw else 0) > (2.0e7 if th else 3e6) or n * T > (4e6 if th else 4e5):
        raise Skip()
    b = c("backend", BACKENDS)
    return dict(fn=fn, kw=kw, K=K, M=M, T=T, batch=B, backend=b, dtype=c("dtype", DTYPES if th else DTYPES[:1]), grad=c("grad", (False, True)) if b == TORCH else False)


def orders(sc):
    """Numbers of scalars: correlations of all pairs, and coefficients of the system matrices."""
    fn, kw, K, M, T = sc["fn"], sc["kw"], sc["K"], sc["M"], sc["T"]
    B = int(np.prod(sc["batch"])) if sc["batch"] else 1
    L = kw.get("filter_length", 1)
    bss = "bss" in fn
    diag = needs_square(fn, kw) and not bss
    pairs = (K if diag else K * M) + (K * K if bss else K)
    if "si_" in fn:
        L = 1
    stats = B * (pairs + K + M) * (T + 2 * L)
    system = 0
    if L > 1 and "use_cg_iter" not in kw:
        system = B * ((K * K if bss else 0) + K) * L * L
    return stats, system, B * pairs * L if "use_cg_iter" in kw else 0


def run_peak(sc, r, show=None):
    b = sc["backend"]
    lab = f"{sc['fn']}/{b}/{sc['dtype']} {sc['kw']} K,M={sc['K']},{sc['M']} T={sc['T']} batch={sc['batch']}" + (" with gradients" if sc["grad"] else "")
    stats, system, it = orders(sc)
    with Meter(b) as m:
        one(sc["fn"], sc["kw"], b, sc["dtype"], sc["K"], sc["M"], sc["T"], sc["batch"], grad=sc["grad"])
    r.calls += 1
    r.states += 1
    w = 8
    f = 3 if sc["grad"] else 1
    limit = w * f * (14 * stats + 4 * system + 16 * it * (sc["kw"].get("use_cg_iter", 1) if sc["grad"] else 1)) + 300 * KIB
    if show is not None:
        show.append((m.peak / limit, lab, m.peak, stats * w, system * w))
    if m.peak > limit:
        r.fail(lab + f": {m.peak} bytes at once; the signals and correlations have {w * stats}, the system matrices {w * system}")
        return
    r.outcome(sc["fn"], b)


# ---------------------------------------------------------------------------------------------------------------------
def steps(f):
    n = [0]

    def loc(frame, event, arg):
        if event == "line":
            n[0] += 1
        return loc

    def glob(frame, event, arg):
        return loc if event == "call" and os.path.realpath(frame.f_code.co_filename).startswith(PKG) else None

    sys.settrace(glob)
    try:
        f()
    finally:
        sys.settrace(None)
    return n[0]


def step_space(c, th):
    fn, kw = draw(c, (8,), (None, 3), flags=False)
    return dict(fn=fn, kw=kw, backend=c("backend", BACKENDS), how=c("how", ("values", "nan")), K=c("K", (2, 5)))


def run_steps(sc, r):
    """Lines of the package executed, as one size grows and the others stay."""
    fn, kw, b, K = sc["fn"], sc["kw"], sc["backend"], sc["K"]
    bad = "nan" if sc["how"] == "nan" else None

    def count(K=K, T=200, B=(), **k):
        r.calls += 1
        r.states += 1
        return steps(lambda: one(fn, dict(kw, **k), b, F64, K, K, T, B, bad=bad))

    count()
    base = count()
    lab = f"{fn}/{b} {kw} K={K} ({sc['how']}): lines of the package executed"
    todo = [("30000 samples instead of 200", count(T=30000), 1.5 * base + 300), ("40 items instead of one", count(B=(40,)), 40 * (1.5 * base + 100))]
    if "si_" not in fn:
        todo.append(("160 taps instead of 8", count(filter_length=160), 20 * (1.5 * base + 100)))
    if "use_cg_iter" in kw:
        todo.append(("48 iterations instead of 3", count(use_cg_iter=48), 16 * (1.5 * base + 100)))
    if K == 5:
        todo.append(("10 channels instead of 5", count(K=10), 8 * (2 * base + 2000)))
    for what, n, limit in todo:
        if n > limit:
            r.fail(f"{lab} {base}; with {what}: {n}")
            return
    r.outcome(fn, b, sc["how"])


def build(chk):
    th = chk.thorough
    gc.collect()
    gc.freeze()  # what is there already is not looked at again
    chk.group("kept", lambda c: keep_space(c, th), run_keep, bound=3 if th else 2, what="memory kept after every call (returning or raising): nothing but the result, and nothing once it is dropped")
    chk.group("growth", lambda c: grow_space(c, th), run_grow, timeout=300, what="hundreds of calls each with another number of samples, taps or items: memory kept does not grow")
    chk.group("peak", lambda c: peak_space(c, th), run_peak, timeout=300, what="highest amount of memory during a call, over all grids of channels, samples, taps, items: a fixed multiple of the correlations plus, direct solver only, of the system matrices")
    chk.group("steps", lambda c: step_space(c, th), run_steps, timeout=300, what="lines executed as samples, taps, items, iterations or channels grow")
    chk.assume("memory is that of arrays, tensors and python objects (tracemalloc; allocations of torch): work space inside LAPACK and FFT kernels is not seen",
               "the limits leave a factor of two or more to other ways of computing the same")
