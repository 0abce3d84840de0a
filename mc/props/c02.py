"""C02: SIR and SAR are their projection definitions."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..lib import BACKENDS, DTYPES, NP, TORCH, call

# (K, T, L, alphabet of the references, alphabet of the estimates)
SPACES = (
    (2, 3, 1, (-1, 0, 1), (-1, 0, 1)),
    (2, 4, 1, (0, 1), (-1, 0, 1)),
    (2, 3, 2, (-1, 0, 1), (-1, 0, 1)),
    (2, 4, 2, (0, 1), (-1, 0, 1)),
    (2, 4, 3, (0, 1), (-1, 0, 1)),
    (2, 5, 2, (0, 1), (0, 1)),
    (2, 5, 3, (0, 1), (0, 1)),
    (3, 3, 1, (0, 1), (-1, 0, 1)),
    (3, 4, 1, (0, 1), (0, 1)),
    (3, 4, 2, (0, 1), (0, 1)),
)
SPACES_TH = SPACES + (
    (2, 4, 2, (-1, 0, 1), (-1, 0, 1)),
    (2, 6, 2, (0, 1), (0, 1)),
    (2, 6, 3, (0, 1), (0, 1)),
    (2, 6, 4, (0, 1), (0, 1)),
    (3, 5, 1, (0, 1), (0, 1)),
    (3, 5, 2, (0, 1), (0, 1)),
    (4, 4, 1, (0, 1), (0, 1)),
)


def exact_space(c, spaces):
    return dict(sp=c("space", spaces), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES), part=c("part", range(4)))


def run_exact(sc, r):
    """Batch over all (tuple of references, estimate): channel m of the estimate is the same signal for all m, so
    channel m is the pair (ref m, est).  SIR/SAR from exact determinants."""
    K, T, L, ra, ea = sc["sp"]
    R1 = all_signals(T, ra, canonical_sign=True)
    E1 = all_signals(T, ea)
    idx = np.array(list(itertools.product(range(len(R1)), repeat=K)))
    idx = idx[sc["part"]::4]
    refs = R1[idx]  # (n, K, T)
    # keep linearly independent ones
    n, m = len(refs), len(E1)
    A = oracle.shifts(refs, L)
    G = np.einsum("...ti,...tj->...ij", A, A)
    w = np.linalg.eigvalsh(G.astype(float))
    keep = w[:, 0] > 1e-6
    refs = refs[keep]
    n = len(refs)
    r.skipped += int((~keep).sum()) * m
    if n == 0:
        return
    cond_j = np.repeat(toeplitz_cond(refs, L), m)
    R = np.repeat(refs, m, 0)
    E = np.tile(E1, (n, 1))
    ca, da, va = oracle.exact_coh(R, E, L)
    assert va.all()
    N = len(R)
    for lo_i in range(0, N, 20000):
        sl = slice(lo_i, lo_i + 20000)
        res = call("bss_eval_sources", sc["backend"], sc["dtype"], R[sl], np.repeat(E[sl, None], K, 1), filter_length=L,
                   compute_permutation=False)
        r.calls += 1
        lab = f"bss_eval_sources/{sc['backend']}/{sc['dtype']} K={K} T={T} L={L}"
        if not res.ok:
            r.fail(f"{lab}: raised {res.excname()}: {res.exc}")
            return
        e0 = compare.CFAC * compare.eps_of(sc["dtype"])
        e = e0 * cond_j[sl]
        ta = e * np.sqrt(ca[sl]) + e**2
        desc = lambda k: (lambda i: dict(refs=R[sl][i[0]], est=E[sl][i[0]], channel=k))  # noqa: E731
        for k in range(K):
            cs, ds, vs = oracle.exact_coh(R[sl, k:k + 1], E[sl], L)
            ts = e * np.sqrt(cs) + e**2
            lo, hi = db_interval_exact(cs, ds, ts)
            check_bounds(r, res.outs[0][:, k], lo, hi, lab + " SDR", desc(k))
            with np.errstate(all="ignore"):
                ci = cs / ca[sl]
                # 1 - cs/ca = (ds - da)/ca
                di = (ds - da[sl]) / ca[sl]
                ti = ts / ca[sl] + ci * ta / ca[sl]
            ok = ca[sl] > 2 * ta
            lo, hi = db_interval_exact(np.where(ok, ci, 0), np.where(ok, di, 1), np.where(ok, ti, 1.0))
            lo, hi = np.where(ok, lo, -np.inf), np.where(ok, hi, np.inf)
            got = np.where(ok, res.outs[1][:, k], 0.0)
            check_bounds(r, got, lo, hi, lab + " SIR", desc(k))
            lo, hi = db_interval_exact(ca[sl], da[sl], ta)
            check_bounds(r, res.outs[2][:, k], lo, hi, lab + " SAR", desc(k))
            r.states += len(cs)
        r.outcome(*res.outs)
        if r.violations:
            return


def sweep(c, Ts, Ls, kms, letters):
    return dict(T=c("T", Ts), L=c("L", Ls), km=c("KM", kms), letter=c("letter", letters), backend=c("backend", BACKENDS),
                dtype=c("dtype", DTYPES))


def run_sweep(sc, r):
    K, M = sc["km"]
    T, L = sc["T"], sc["L"]
    if K * L > 0.7 * (T + L - 1):  # dependent (or nearly) shifts: outside the precondition
        r.skipped += 1
        return
    ref, est = signals.scene(K, M, T, ("c02", T, K, M), letters=(sc["letter"], "white"))
    conf(r, "bss_eval_sources", sc["backend"], sc["dtype"], ref, est, filter_length=L)
    if K == M:
        conf(r, "bss_eval_sources", sc["backend"], sc["dtype"], ref, est, filter_length=L, compute_permutation=False)


def batches(c):
    return dict(shape=c("batch", ((), (1,), (3,), (2, 2), (1, 3, 1), (0,), (2, 0))), km=c("KM", ((2, 2), (3, 2), (2, 3), (1, 2), (2, 1), (3, 3))),
                T=c("T", (12, 40)), L=c("L", (1, 2, 5)), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_batch(sc, r):
    K, M = sc["km"]
    if K * sc["L"] > 0.7 * (sc["T"] + sc["L"] - 1):
        r.skipped += 1
        return
    ref, est = signals.batch(sc["shape"], K, M, sc["T"], "c02b")
    conf(r, "bss_eval_sources", sc["backend"], sc["dtype"], ref, est, filter_length=sc["L"])
    if K == M:
        conf(r, "bss_eval_sources", sc["backend"], sc["dtype"], ref, est, filter_length=sc["L"], compute_permutation=False)


def levels(c, snrs):
    return dict(snr=c("noise", snrs), leak=c("leak", (0.0, 0.25, 30.0)), km=c("KM", ((2, 2), (1, 2), (3, 2), (2, 3))), L=c("L", (1, 3)), T=c("T", (40, 41)), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_levels(sc, r):
    K, M = sc["km"]
    ref, est = signals.scene(K, M, sc["T"], ("c02v", sc["T"]), snr=sc["snr"], leak=sc["leak"])
    # part of the noise that the references explain by chance is removed, so that the level is the nominal one
    if sc["snr"] >= 10:
        n = signals.scene(K, M, sc["T"], ("c02v", sc["T"]), snr=0.0, leak=sc["leak"])[1]
        d = est - n
        A = oracle.shifts(rounded(ref, F64), sc["L"])
        A = np.moveaxis(A, 0, 1).reshape(A.shape[1], -1) if A.ndim == 3 else A
        d = np.pad(d, [(0, 0), (0, A.shape[0] - d.shape[-1])])
        q, _ = np.linalg.qr(A)
        d = d - d @ q @ q.T
        est = n + d[:, :sc["T"]]
    kws = [{}] + ([dict(compute_permutation=False)] if K == M else [])
    for kw in kws:
        conf(r, "bss_eval_sources", sc["backend"], sc["dtype"], ref, est, filter_length=sc["L"], **kw)


def long_space(c, big):
    T, L = c("T,L", ((8000, 512), (1600, 255), (1600, 256), (1600, 257), (2500, 511), (2500, 512), (2500, 513)) + big)
    return dict(T=T, L=L, km=c("KM", ((2, 2), (2, 3), (1, 1))), default=c("default", (True, False)),
                backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_long(sc, r):
    K, M = sc["km"]
    L = sc["L"]
    if sc["default"] and L != 512:
        r.skipped += 1
        return
    ref, est = signals.scene(K, M, sc["T"], ("c02l", sc["T"]), letters=("white", "ar"))
    kws = [{}] + ([dict(compute_permutation=False)] if K == M else [])
    for kw in kws:
        kw0 = {} if sc["default"] else dict(filter_length=L)
        res = call("bss_eval_sources", sc["backend"], sc["dtype"], ref, est, **kw, **kw0)
        kw = dict(kw, filter_length=512 if sc["default"] else L)
        compare.check_call(r, res, "bss_eval_sources", kw, rounded(ref, sc["dtype"]), rounded(est, sc["dtype"]),
                           sc["backend"], sc["dtype"], f"bss_eval_sources default={sc['default']} {kw}")


def build(chk):
    th = chk.thorough
    sp = SPACES_TH if th else SPACES
    chk.group("exact_small", lambda c: exact_space(c, sp), run_exact, timeout=600,
              what="all tuples of linearly independent small integer references x all small integer estimates, exact determinants "
                   "(Bareiss) for SDR, SIR and SAR; (K,T,L,alphabets)=" + repr(sp))
    Ts = [6, 9, 12, 15, 16, 17, 24, 31, 32, 33, 50, 63, 64, 65, 128, 129]
    Ls = [1, 2, 3, 4, 5, 7, 8, 9, 16, 17]
    kms = ((2, 2), (1, 1), (3, 3), (2, 3), (3, 2), (1, 3), (4, 4))
    letters = ("white", "ar")
    if th:
        Ts = list(range(4, 70)) + [100, 127, 128, 129, 255, 256, 257]
        Ls = list(range(1, 20)) + [31, 32, 33]
        kms += ((4, 2), (2, 4), (5, 5), (3, 1))
        letters = signals.LETTERS
    chk.group("length_sweep", lambda c: sweep(c, Ts, Ls, kms, letters), run_sweep, timeout=300,
              what="full product of lengths x filter lengths x channel counts x letters, dense projection oracle")
    chk.group("letters", lambda c: sweep(c, (60,), (1, 2, 6), ((2, 2), (3, 4), (4, 3), (5, 5)), signals.LETTERS), run_sweep,
              what="all signal letters")
    chk.group("batch", batches, run_batch, what="all batch shapes of the alphabet")
    chk.group("levels", lambda c: levels(c, (1e-4, 1e-2, 1.0, 10.0, 100.0, 1e3, 1e4)), run_levels, what="levels of noise (SAR down to below -60 dB) x leakage (SIR down to about -30 dB) x shapes")
    chk.group("long", lambda c: long_space(c, ((48000, 512), (16000, 700)) if th else ()), run_long, timeout=600,
              what="long signals and filters, including the default filter_length of 512")
    chk.group("many_channels", lambda c: many_space(c, MANY + ((16, 16), (20, 2)) if th else MANY, (3, 1, 8) if th else (3,), (("bss_eval_sources", {}), ("bss_eval_sources", dict(compute_permutation=False)))), run_many, timeout=300,
              what="up to 12 (thorough: 20) references and estimates")
    chk.assume("rounding error of the library is bounded by 300*eps*cond of the joint system")
