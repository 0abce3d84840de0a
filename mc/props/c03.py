"""C03: the scale-invariant functions are the one-tap case."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..lib import BACKENDS, DTYPES, NP, TORCH, call

PAIRS = (("si_bss_eval_sources", "bss_eval_sources"), ("si_sdr", "sdr"), ("si_sdr_loss", "sdr_loss"), ("si_sdr_pit_loss", "sdr_pit_loss"),
         ("ns:pairwise_si_sdr_loss", "ns:pairwise_sdr_loss"))
KMS = ((2, 2), (1, 1), (3, 3), (2, 3), (3, 2), (1, 3), (3, 1), (4, 4))


def options(c, fn, K, M):
    kw = {}
    base = fn.replace("ns:", "")
    zm = c("zero_mean", (None, True, False))
    if zm is not None:
        kw["zero_mean"] = zm
    cl = c("clamp_db", (None, 5.0, 30))
    if cl is not None:
        kw["clamp_db"] = cl
    if base == "si_bss_eval_sources":
        ld = c("load_diag", (None, 1e-2))
        if ld is not None:
            kw["load_diag"] = ld
        cp = c("compute_permutation", (None, True) + ((False,) if K == M else ()))
        if cp is not None:
            kw["compute_permutation"] = cp
    if base == "si_sdr":
        kw["return_perm"] = c("return_perm", (True, False))
        kw["change_sign"] = c("change_sign", (False, True))
    if base == "si_sdr_loss":
        kw["pairwise"] = c("pairwise", (True,) + ((False,) if K == M else ()))
    return kw


def space(c, Ts, kms):
    fn, reg = c("fn", PAIRS)
    K, M = c("KM", kms)
    T = c("T", Ts)
    kw = options(c, fn, K, M)
    return dict(fn=fn, reg=reg, K=K, M=M, T=T, kw=kw, batch=c("batch", ((), (3,), (2, 2))))


def run(sc, r):
    fn, reg, kw = sc["fn"], sc["reg"], sc["kw"]
    if fn == "si_bss_eval_sources" and sc["K"] > 0.7 * sc["T"]:
        r.skipped += 1
        return
    ref, est = signals.batch(sc["batch"], sc["K"], sc["M"], sc["T"], "c03", letters=("offset", "white"))
    for backend in BACKENDS:
        for dtype in DTYPES:
            if sc["T"] == 1 and kw.get("zero_mean"):
                continue
            if sc["T"] <= 2 and kw.get("zero_mean") and dtype == "float32":
                continue
            a = conf(r, fn, backend, dtype, ref, est, **kw)
            # the regular function with one tap must return the same values (same closed form, so bit equality is
            # not demanded, only the rounding bound of both)
            b = conf(r, reg, backend, dtype, ref, est, filter_length=1, **kw)
            if not (a and b):
                return
            ra = call(fn, backend, dtype, ref, est, **kw)
            rb = call(reg, backend, dtype, ref, est, filter_length=1, **kw)
            r.calls += 2
            for x, y in zip(ra.outs, rb.outs):
                if x.shape != y.shape or not np.allclose(x, y, rtol=0, atol=1e-9 if dtype == "float64" else 2e-2, equal_nan=True):
                    r.fail(f"{fn} differs from {reg}(filter_length=1)", backend=backend, dtype=dtype, a=x, b=y)
                    return


def exact_space(c, tmax):
    return dict(T=c("T", range(1, tmax + 1)), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_exact(sc, r):
    S = all_signals(sc["T"])
    n = len(S)
    R, E = np.repeat(S, n, 0), np.tile(S, (n, 1))
    co, d, _ = oracle.exact_coh(R[:, None], E, 1)
    e = compare.CFAC * compare.eps_of(sc["dtype"])
    lo, hi = db_interval_exact(co, d, e * np.sqrt(co) + e**2)
    for fn, kw, shp, args in (("si_sdr_loss", dict(pairwise=True), (n, n), (S, S)),
                              ("si_sdr_loss", {}, (n * n, 1), (R[:, None], E[:, None])),
                              ("si_bss_eval_sources", dict(compute_permutation=False), (n * n, 1), (R[:, None], E[:, None]))):
        res = call(fn, sc["backend"], sc["dtype"], *args, **kw)
        r.calls += 1
        r.states += n * n
        lab = f"{fn}/{sc['backend']}/{sc['dtype']} T={sc['T']}"
        if not res.ok:
            r.fail(f"{lab}: raised {res.excname()}: {res.exc}")
            return
        s = -1 if "loss" in fn else 1
        l2, h2 = (lo, hi) if s == 1 else (-hi, -lo)
        check_bounds(r, res.outs[0], l2.reshape(shp), h2.reshape(shp), lab, lambda i: dict(index=i))
        r.outcome(res.outs[0])


def build(chk):
    th = chk.thorough
    chk.group("exact_small", lambda c: exact_space(c, 5 if th else 4), run_exact,
              what="all pairs of non-zero {-1,0,1} signals, exact integer oracle, one tap")
    chk.group("options", lambda c: space(c, (2, 7, 40, 1000) if th else (2, 7, 40), KMS + ((5, 3), (3, 5), (5, 5), (6, 6)) if th else KMS), run,
              what="five si_ functions x all their options x channel counts x lengths x batch shapes x back ends x precisions: "
                   "against the projection model and against the regular function with filter_length=1")
    chk.group("many_channels", lambda c: many_space(c, MANY, (1,), (("si_sdr", dict(return_perm=True)), ("si_bss_eval_sources", {}), ("si_sdr_loss", dict(pairwise=True)), ("si_sdr_loss", {}), ("si_bss_eval_sources", dict(compute_permutation=False)), ("si_sdr_pit_loss", {}))), run_many, timeout=300,
              what="up to 12 references and estimates")
