"""C13: ordering relations between the metrics."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import BACKENDS, DTYPES, NP, TORCH, call


def relations(r, sdr, sir, sar, tol, single, lab, desc):
    """All relations on arrays of dB values, as squared cosines."""
    a, b, c = (oracle.from_db(np.asarray(x, dtype=np.float64)) for x in (sdr, sir, sar))
    if np.isnan(a).any() or np.isnan(b).any() or np.isnan(c).any():
        i = tuple(int(x) for x in np.argwhere(np.isnan(a) | np.isnan(b) | np.isnan(c))[0])
        r.fail(lab + ": NaN metric", sdr=float(sdr[i]), sir=float(sir[i]), sar=float(sar[i]), **desc(i))
        return False
    tests = [("SDR <= SAR", a - c, tol), ("SDR = SIR x SAR in squared cosines (energy identity)", np.abs(a - b * c), 3 * tol), ("SDR <= SIR", (a - b) * np.minimum(1, c), 3 * tol)]
    if single:
        tests.append(("SIR = +inf for one reference", (1 - b) * c, 3 * tol))
        tests.append(("SDR = SAR for one reference", np.abs(a - c), 2 * tol))
    for nm, d, t in tests:
        bad = d > t
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            r.fail(lab + f": {nm} does not hold ({int(bad.sum())} of {bad.size})", sdr=float(sdr[i]), sir=float(sir[i]), sar=float(sar[i]), **desc(i))
            return False
    return True


# (K, T, L, reference alphabet, estimate alphabet)
SP = ((1, 4, 2, (-1, 0, 1), (-1, 0, 1)), (2, 3, 1, (-1, 0, 1), (-1, 0, 1)), (2, 4, 1, (0, 1), (-1, 0, 1)), (2, 4, 2, (0, 1), (-1, 0, 1)), (3, 4, 1, (0, 1), (0, 1)),
      (2, 5, 2, (0, 1), (0, 1)), (3, 5, 2, (0, 1), (0, 1)))
SP_TH = SP + ((2, 6, 2, (0, 1), (0, 1)), (2, 4, 2, (-1, 0, 1), (-1, 0, 1)), (3, 5, 1, (0, 1), (0, 1)), (1, 6, 4, (-1, 0, 1), (0, 1)))


def exact_space(c, sps):
    return dict(sp=c("space", sps), part=c("part", range(4)), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES), adj=c("estimate_reach", ("any",)))


def run_exact(sc, r):
    K, T, L, ra, ea = sc["sp"]
    R1, E1 = all_signals(T, ra, canonical_sign=True), all_signals(T, ea)
    idx = np.array(list(itertools.product(range(len(R1)), repeat=K)))[sc["part"]::4]
    refs = R1[idx]
    A = oracle.shifts(refs, L)
    w = np.linalg.eigvalsh(np.einsum("...ti,...tj->...ij", A, A).astype(float))
    refs = refs[w[:, 0] > 1e-6]
    if not len(refs):
        return
    m = len(E1)
    cond = np.repeat(toeplitz_cond(refs, L), m)[:, None]
    R, E = np.repeat(refs, m, 0), np.tile(E1, (len(refs), 1))
    tol = compare.CFAC * compare.eps_of(sc["dtype"]) * cond
    for s in range(0, len(R), 20000):
        sl = slice(s, s + 20000)
        res = call("bss_eval_sources", sc["backend"], sc["dtype"], R[sl], np.repeat(E[sl, None], K, 1), filter_length=L, compute_permutation=False)
        r.calls += 1
        r.states += K * len(R[sl])
        lab = f"bss_eval_sources/{sc['backend']}/{sc['dtype']} K={K} T={T} L={L}"
        if not res.ok:
            r.fail(lab + f" raised {res.exc}")
            return
        o = [x.astype(np.float64) for x in res.outs]
        # estimates orthogonal to all the references have no SIR
        c0 = oracle.from_db(o[2])
        undef = c0 <= 4 * tol[sl]
        o[1] = np.where(undef, o[0], o[1])
        if not relations(r, *o, tol[sl], K == 1, lab, lambda i: dict(refs=R[sl][i[0]], est=E[sl][i[0]])):
            return
        r.outcome(*res.outs)


def real_space(c, th):
    fn = c("fn", ("bss_eval_sources", "si_bss_eval_sources"))
    K, M = c("KM", ((2, 2), (1, 1), (1, 3), (3, 3), (3, 2), (2, 3)) + (((4, 4), (5, 5)) if th else ()))
    kw = {}
    if fn == "bss_eval_sources":
        kw["filter_length"] = c("L", (1, 2, 5, 12))
    for k, a in (("zero_mean", (None, True)), ("clamp_db", (None, 200.0)), ("compute_permutation", (None, False))):
        v = c(k, a)
        if v is not None:
            kw[k] = v
    if K != M and kw.get("compute_permutation") is False:
        raise Skip()
    return dict(fn=fn, K=K, M=M, kw=kw, T=c("T", (60, 100)), letter=c("letter", signals.LETTERS if th else ("white", "offset", "ar", "chirp")), snr=c("snr", (0.3, 1e-3, 30.0)),
                backend=c("backend", BACKENDS))


def run_real(sc, r):
    ref, est = signals.scene(sc["K"], sc["M"], sc["T"], "c13", snr=sc["snr"], letters=(sc["letter"], "white"))
    L = sc["kw"].get("filter_length", 1)
    if sc["K"] * L > 0.6 * sc["T"]:
        r.skipped += 1
        return
    for dt in DTYPES:
        res = call(sc["fn"], sc["backend"], dt, ref, est, **sc["kw"])
        r.calls += 1
        r.states += 1
        lab = f"{sc['fn']}/{sc['backend']}/{dt} {sc['kw']}"
        if not compare.check_structure(r, res, sc["fn"], sc["kw"], (), sc["K"], sc["M"], sc["backend"], dt, lab):
            return
        m = oracle.Model(rounded(ref, dt), rounded(est, dt), L, sc["kw"].get("zero_mean", False))
        tol = np.full(res.outs[0].shape, compare.CFAC * compare.eps_of(dt) * m.cond * (1 + 10 * bool(sc["kw"].get("zero_mean"))))
        if not relations(r, *res.outs[:3], tol, sc["K"] == 1, lab, lambda i: dict(channel=i)):
            return
        r.outcome(*res.outs[:3])


def mono_space(c, Ls):
    return dict(K=c("K", (1, 2, 3)), T=c("T", (120, 31)), letter=c("letter", ("white", "ar", "offset", "impulse")), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_mono(Ls):
    def run(sc, r):
        K, T, b, dt = sc["K"], sc["T"], sc["backend"], sc["dtype"]
        ref, est = signals.scene(K, K, T, "c13m", letters=(sc["letter"], "white"), taps=(1.0, 0.5, -0.3, 0.2, 0.1, 0.3))
        prev = None
        for L in Ls:
            P = call("sdr_loss", b, dt, ref, est, filter_length=L, pairwise=True)
            r.calls += 1
            r.states += 1
            if not P.ok:
                r.fail(f"sdr_loss L={L} raised {P.exc}")
                return
            # cond grows with L for short signals; the bound of the model decides
            m = oracle.Model(rounded(ref, dt), rounded(est, dt), L, with_sar=False)
            tol = compare.CFAC * compare.eps_of(dt) * m.cond_sdr
            cs = oracle.from_db(-P.outs[0])
            if prev is not None and (cs < prev[1] - tol - prev[2]).any():
                r.fail(f"SDR decreases when the filter gets longer ({b} {dt})", L=(prev[0], L), before=oracle.to_db(prev[1]), after=-P.outs[0])
                return
            prev = (L, cs, tol)
            r.outcome(P.outs[0])
        # SAR against L, and against the number of references
        prevs = {}
        for L in [x for x in Ls if K * x <= 0.6 * T]:
            last = None
            for k in range(1, K + 1):
                res = call("bss_eval_sources", b, dt, ref[:k], est[:1], filter_length=L)
                r.calls += 1
                r.states += 1
                if not res.ok:
                    r.fail(f"bss_eval_sources raised {res.exc}", L=L, K=k)
                    return
                m = oracle.Model(rounded(ref[:k], dt), rounded(est[:1], dt), L)
                tol = compare.CFAC * compare.eps_of(dt) * m.cond
                ca = float(oracle.from_db(res.outs[2][0]))
                if last is not None and ca < last[0] - tol - last[1]:
                    r.fail(f"SAR decreases when a reference is added ({b} {dt})", L=L, K=k)
                    return
                if k in prevs and ca < prevs[k][0] - tol - prevs[k][1]:
                    r.fail(f"SAR decreases when the filter gets longer ({b} {dt})", L=L, K=k)
                    return
                last = prevs[k] = (ca, tol)
    return run


def build(chk):
    th = chk.thorough
    chk.group("small_integer", lambda c: exact_space(c, SP_TH if th else SP), run_exact, timeout=300,
              what="all tuples of independent small integer references x all small integer estimates: energy identity and orderings on the outputs; (K,T,L,alphabets)=" + repr(SP_TH if th else SP))
    chk.group("real", lambda c: real_space(c, th), run_real, what="options x channel counts x letters x noise levels from 1e-3 to 30")
    Ls = list(range(1, 45)) + [63, 64, 65, 100, 127, 128, 129] + (list(range(45, 140)) if th else [])
    Ls = sorted(set(Ls))
    chk.group("monotonic", lambda c: mono_space(c, Ls), run_mono(Ls), timeout=300,
              what="all consecutive filter lengths up to the bound, and references added one by one")
