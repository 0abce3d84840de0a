"""C14: the iterative solver converges to the direct solution."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import BACKENDS, DTYPES, NP, TORCH, call

CGF = ("sdr_loss", "sdr", "sdr_pit_loss", "bss_eval_sources", "ns:pairwise_sdr_loss")
LETSETS = (("white",), ("ar", "white"), ("lowpass",), ("decay", "offset"))
DB = np.log(10) / 10


def widen(kind, c):
    """0.01 dB (SDR) or 0.1 dB (SIR, SAR) for levels of at most 15 dB, and a loose tolerance beyond."""
    with np.errstate(all="ignore"):
        db = np.abs(oracle.to_db(c))
        t = (0.01 if kind == "sdr" else 0.1) * DB * c * (1 - c)
    return np.where(db <= 15.5, t, 2e-3) + 1e-9


def space(c, Ls, ns, kms, Ts):
    fn = c("fn", CGF)
    K, M = c("KM", kms)
    T = c("T", Ts)
    L = c("L", Ls)
    if 4 * K * L > T:
        raise Skip()
    kw = Opts(filter_length=(L,), use_cg_iter=ns).draw(c, fn, dev=1, exclude=("zero_mean", "clamp_db", "change_sign"))
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, K=K, M=M, T=T, kw=kw, letters=c("letters", LETSETS, dev=1), batch=c("batch", ((), (2,)), dev=1), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run(sc, r):
    kw = dict(sc["kw"])
    ref, est = signals.batch(sc["batch"], sc["K"], sc["M"], sc["T"], "c14", letters=sc["letters"])
    conf(r, sc["fn"], sc["backend"], sc["dtype"], ref, est, widen=widen, label=str(sc["letters"]), **kw)


def opt_space(c):
    fn = c("fn", CGF)
    K, M = c("KM", ((2, 2), (3, 2), (1, 1)))
    kw = Opts(filter_length=(8, 5, 1), use_cg_iter=(10, 60)).draw(c, fn, dev=1)
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, K=K, M=M, T=200, kw=kw, letters=("white", "offset"), batch=c("batch", ((), (2,), (2, 2), (1,), (0,)), dev=1), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def early_space(c, ns, Ls):
    fn = c("fn", CGF)
    K, M = c("KM", ((2, 2), (1, 1), (3, 3), (2, 3), (3, 2)))
    n = c("n", ns)
    kw = Opts(filter_length=Ls, use_cg_iter=(n,)).draw(c, fn, exclude=("zero_mean", "clamp_db", "change_sign", "load_diag"))
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, K=K, M=M, T=256, kw=kw, backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_early(sc, r):
    """No iteration count gives NaN, and the SDR, whose residual energy decreases along the iterations, is never above the
    optimum."""
    fn, kw, dt = sc["fn"], sc["kw"], sc["dtype"]
    K, M, L = sc["K"], sc["M"], kw["filter_length"]
    for letters in LETSETS:
        for snr in (0.05, 0.3, 1.0):
            ref, est = signals.scene(K, M, sc["T"], "c14e", letters=letters, snr=snr)
            res = call(fn, sc["backend"], dt, ref, est, **kw)
            r.calls += 1
            r.states += 1
            lab = f"{fn}/{sc['backend']}/{dt} {kw} letters={letters} snr={snr} KM={(K, M)}"
            if not compare.check_structure(r, res, fn, kw, (), K, M, sc["backend"], dt, lab):
                return
            outs = res.outs[: len(compare.kinds_of(fn))]
            if any(np.isnan(o).any() for o in outs) or not np.isfinite(outs[0]).all():
                r.fail(lab + ": not finite", outs=outs)
                return
            m = compare.model(rounded(ref, dt), rounded(est, dt), L, False, None, len(outs) == 3)
            mode = compare.mode_of(fn, kw)
            if mode == "perm" and len(res.outs) > len(outs):
                idx = oracle.pairs_of(res.outs[-1], K, M)
            elif mode == "diag":
                idx = [(k, k) for k in range(K)]
            elif mode == "pairwise":
                idx = [(k, j) for k in range(K) for j in range(M)]
            else:
                continue
            best = np.array([m.cs[p] for p in idx])
            got = oracle.from_db(compare.sign_of(fn, kw) * outs[0].ravel())
            # 10 iterations give 0.01 dB; fewer can only be below
            lim = best + 0.01 * DB * best * (1 - best) + 1e-4
            if (got > lim).any():
                r.fail(lab + ": SDR above the one of the optimal filter", got=got, best=best)
                return
            r.outcome(*outs)


def mono_space(c, Ls, nmax):
    return dict(L=c("L", Ls), K=c("K", (1, 2, 3)), letters=c("letters", LETSETS), fn=c("fn", ("sdr_loss", "pairwise", "bss")), backend=c("backend", BACKENDS),
                dtype=c("dtype", DTYPES), nmax=nmax)


def run_mono(sc, r):
    """Running more iterations never degrades the SDR (the A-norm error of conjugate gradient decreases), for all n up to nmax."""
    L, K, dt, b = sc["L"], sc["K"], sc["dtype"], sc["backend"]
    ref, est = signals.scene(K, K, 256, "c14m", letters=sc["letters"])
    fn, kw = dict(sdr_loss=("sdr_loss", {}), pairwise=("sdr_loss", dict(pairwise=True)), bss=("bss_eval_sources", dict(compute_permutation=False)))[sc["fn"]]
    direct = call(fn, b, dt, ref, est, filter_length=L, **kw)
    r.calls += 1
    if not direct.ok:
        r.fail(f"direct solver raised {direct.exc}")
        return
    sg = compare.sign_of(fn, kw)
    cd = oracle.from_db(sg * direct.outs[0])
    prev = np.zeros_like(cd)
    tol = 0.01 * DB * cd * (1 - cd) + 1e-5
    for n in range(1, sc["nmax"] + 1):
        x = call(fn, b, dt, ref, est, filter_length=L, use_cg_iter=n, **kw)
        r.calls += 1
        r.states += 1
        if not x.ok:
            r.fail(f"{fn} {kw} L={L} n={n} raised {x.exc}")
            return
        cx = oracle.from_db(sg * x.outs[0])
        if not (cx >= prev - tol).all() or not (cx <= cd + tol).all():
            r.fail(f"{fn}/{b}/{dt} {kw} L={L} K={K} {sc['letters']}: iteration {n} degraded the SDR", prev=prev, got=cx, direct=cd)
            return
        if n >= max(L, 10) and not (np.abs(cx - cd) <= tol).all():
            r.fail(f"{fn}/{b}/{dt} {kw} L={L} K={K} {sc['letters']}: not converged after {n} iterations", got=cx, direct=cd)
            return
        prev = cx
    r.outcome(prev)


def build(chk):
    th = chk.thorough
    kms = ((2, 2), (1, 1), (3, 3), (4, 4), (2, 3), (3, 2), (1, 3), (4, 2))
    Ls = (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48)
    chk.group("converged", lambda c: space(c, Ls if th else Ls[:8] + (16, 24, 33), (10, 20, 50, 200) if th else (10, 50), kms if th else kms[:6], (200, 600) if th else (256,)), run, bound=2 if th else 1,
              timeout=200, what="functions x shapes x filter lengths x iteration counts of at least 10 x signal letters x options: SDR, SIR and SAR within 0.01, 0.1 and 0.1 dB of the definition (levels up to 15 dB)")
    chk.group("options", opt_space, run, bound=4 if th else 2, what="all options (up to a number of non-default choices) of the functions with an iterative solver, including batches (also empty) and the one-tap case")
    chk.group("early", lambda c: early_space(c, (1, 2, 3, 4, 5, 6, 7, 8, 9) if th else (1, 2, 3, 5), (2, 3, 8, 16, 17, 33) if th else (3, 8, 17)), run_early,
              what="few iterations: finite, and never above the optimum")
    chk.group("monotone", lambda c: mono_space(c, (2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 32) if th else (2, 3, 5, 8, 9, 16), 40 if th else 18), run_mono, what="every iteration count up to a bound, in order: never worse, converged after max(L, 10)")
    chk.assume("well-conditioned references (broadband letters, 4 K L <= T); accuracy bounds are those of the statement")
