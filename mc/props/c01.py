"""C01: SDR is its projection definition."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..lib import BACKENDS, DTYPES, NP, TORCH, call


def exact_small(c, tmax):
    T = c("T", range(1, tmax + 1))
    L = c("L", range(1, T + 3))
    return dict(T=T, L=L, backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES),
                form=c("form", ("pairwise", "batch", "bss_batch", "sdr_batch")))


def run_exact(sc, r):
    """Every pair of non-zero {-1,0,1} signals, exact integer oracle."""
    T, L, dtype = sc["T"], sc["L"], sc["dtype"]
    S = all_signals(T)
    n = len(S)
    R = np.repeat(S, n, 0)
    E = np.tile(S, (n, 1))
    c, d, valid = oracle.exact_coh(R[:, None, :], E, L)
    assert valid.all()
    cond = np.repeat(toeplitz_cond(S[:, None, :], L), n)
    e = compare.CFAC * compare.eps_of(dtype) * cond
    lo, hi = db_interval_exact(c, d, e * np.sqrt(c) + e**2)
    lab = f"{sc['form']}/{sc['backend']}/{dtype} T={T} L={L}"
    if sc["form"] == "pairwise":
        res = call("sdr_loss", sc["backend"], dtype, S, S, filter_length=L, pairwise=True)
        lo, hi, shp = (-hi).reshape(n, n), (-lo).reshape(n, n), (n, n)
    elif sc["form"] == "batch":
        res = call("sdr_loss", sc["backend"], dtype, R[:, None], E[:, None], filter_length=L)
        lo, hi, shp = -hi[:, None], -lo[:, None], (n * n, 1)
    elif sc["form"] == "bss_batch":
        res = call("bss_eval_sources", sc["backend"], dtype, R[:, None], E[:, None], filter_length=L,
                   compute_permutation=False)
        lo, hi, shp = lo[:, None], hi[:, None], (n * n, 1)
    else:
        if n * n > 700:  # the assignment of a single channel is solved item by item in python
            R, E, lo, hi = R[::11], E[::11], lo[::11], hi[::11]
        res = call("sdr", sc["backend"], dtype, R[:, None], E[:, None], filter_length=L)
        lo, hi, shp = lo[:, None], hi[:, None], (len(R), 1)
    r.calls += 1
    r.states += lo.size
    if not res.ok:
        r.fail(f"{lab}: raised {res.excname()}: {res.exc}")
        return
    check_bounds(r, res.outs[0], lo, hi, lab,
                 lambda i: dict(ref=S[i[0]] if sc["form"] == "pairwise" else R[i[0]],
                                est=S[i[1]] if sc["form"] == "pairwise" else E[i[0]]))
    r.outcome(res.outs[0])


KM = ((1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 4), (4, 1), (2, 5), (5, 2))


def fns(K, M, L):
    out = [("sdr_loss", dict(filter_length=L, pairwise=True)), ("sdr", dict(filter_length=L, return_perm=True)),
           ("sdr_pit_loss", dict(filter_length=L))]
    if K == M:
        out.append(("sdr_loss", dict(filter_length=L)))
        out.append(("bss_eval_sources", dict(filter_length=L, compute_permutation=False)))
    return out


def sweep(c, Ts, Ls, kms, letters):
    T = c("T", Ts)
    L = c("L", Ls)
    return dict(T=T, L=L, km=c("KM", kms), letter=c("letter", letters), backend=c("backend", BACKENDS))


def run_sweep(sc, r):
    K, M = sc["km"]
    ref, est = signals.scene(K, M, sc["T"], ("c01", sc["T"], K, M), letters=(sc["letter"], "white"))
    for dtype in DTYPES:
        for fn, kw in fns(K, M, sc["L"]):
            if fn == "bss_eval_sources":
                # only the SDR is in the scope of this property (C02 decides the others)
                res = call(fn, sc["backend"], dtype, ref, est, **kw)
                r.calls += 1
                if not res.ok:
                    # dependent shifts of several references: no SAR, hence LinAlgError is legitimate
                    if res.excname() not in ("LinAlgError", "_LinAlgError", "RuntimeError"):
                        r.fail(f"{fn} raised {res.excname()}: {res.exc}")
                    continue
                cells = compare.Cells(rounded(ref, dtype), rounded(est, dtype), sc["L"], dtype, with_sar=False)
                compare.check_item(r, cells, "sdr_loss", {"change_sign": False},
                                   [-np.asarray(res.outs[0])], f"{fn} {kw} {sc['backend']} {dtype}", ())
                r.states += 1
            else:
                conf(r, fn, sc["backend"], dtype, ref, est, **kw)
            if r.violations:
                return


def batches(c):
    return dict(shape=c("batch", ((), (1,), (3,), (2, 2), (1, 3, 1), (0,), (2, 0))), km=c("KM", ((2, 2), (3, 2), (1, 2), (1, 1))),
                T=c("T", (1, 6, 30)), L=c("L", (1, 2, 9)), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_batch(sc, r):
    K, M = sc["km"]
    ref, est = signals.batch(sc["shape"], K, M, sc["T"], "c01b")
    for fn, kw in fns(K, M, sc["L"]):
        if fn == "bss_eval_sources":
            continue
        conf(r, fn, sc["backend"], sc["dtype"], ref, est, **kw)
        if r.violations:
            return


def long_space(c, big):
    T, L = c("T,L", ((16000, 512), (8000, 512), (1600, 255), (1600, 256), (1600, 257), (1601, 511), (1024, 513), (2048, 512),
                     (700, 512), (512, 512), (300, 512), (33, 512)) + big)
    return dict(T=T, L=L, km=c("KM", ((2, 2), (1, 3))), letter=c("letter", ("white", "ar")), default=c("default", (True, False)),
                backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_long(sc, r):
    K, M = sc["km"]
    ref, est = signals.scene(K, M, sc["T"], ("c01l", sc["T"]), letters=(sc["letter"],))
    L = sc["L"]
    if sc["default"] and L != 512:
        r.skipped += 1
        return
    kw0 = {} if sc["default"] else dict(filter_length=L)
    L = 512 if sc["default"] else L
    for fn, kw in fns(K, M, L):
        if fn == "bss_eval_sources":
            continue
        kw = {k: v for k, v in kw.items() if k != "filter_length"}
        res = call(fn, sc["backend"], sc["dtype"], ref, est, **kw, **kw0)
        kw["filter_length"] = L
        compare.check_call(r, res, fn, kw, rounded(ref, sc["dtype"]), rounded(est, sc["dtype"]), sc["backend"],
                           sc["dtype"], f"{fn} default={sc['default']} {kw}")
        if r.violations:
            return


def build(chk):
    th = chk.thorough
    tmax = 5 if th else 4
    chk.group("exact_small", lambda c: exact_small(c, tmax), run_exact,
              what=f"all pairs of non-zero {{-1,0,1}} signals of length 1..{tmax}, filter lengths 1..T+2 (also longer than "
                   "the signals), exact integer oracle, 4 calling forms, both back ends and precisions", timeout=300)
    Ts = list(range(1, 13)) + [15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]
    Ls = [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64]
    letters = ("white", "ar")
    kms = ((2, 2), (1, 1), (2, 3), (3, 2))
    if th:
        Ts = list(range(1, 70)) + [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000]
        Ls = list(range(1, 35)) + [48, 63, 64, 65, 100, 127, 128, 129]
        letters = signals.LETTERS
        kms = KM
    chk.group("length_sweep", lambda c: sweep(c, Ts, Ls, kms, letters), run_sweep,
              what="full product of signal lengths x filter lengths x channel counts x letters, projection oracle", timeout=300)
    chk.group("letters", lambda c: sweep(c, (24, 50), (1, 2, 5, 12), ((2, 2), (3, 4), (4, 3), (4, 4), (3, 1), (1, 3), (5, 2), (2, 5)), signals.LETTERS), run_sweep,
              what="all signal letters x channel counts up to 5")
    chk.group("batch", batches, run_batch, what="all batch shapes of the alphabet, all items compared", timeout=300)
    chk.group("long", lambda c: long_space(c, ((48000, 512), (16000, 1024), (4096, 700)) if th else ()), run_long,
              what="long signals and filters, including the default filter_length of 512", timeout=600)
    chk.group("many_channels", lambda c: many_space(c, MANY + ((16, 16), (20, 2)) if th else MANY, (3, 1, 8) if th else (3,), (("sdr_loss", dict(pairwise=True)), ("sdr", {}), ("sdr", dict(return_perm=True)), ("sdr_loss", {}))), run_many, timeout=300,
              what="up to 12 (thorough: 20) references and estimates")
    chk.assume("values between the enumerated inputs are not explored; the alphabet is chosen so that every branch, FFT "
               "size rounding and shape class of the code is taken on both sides",
               "rounding error of the library is bounded by 300*eps*cond (first order bound, cond of the normalized system)")
