"""C04: optimal one-to-one assignment; metrics of exactly the assigned pairs."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..lib import BACKENDS, DTYPES, NP, TORCH, call

FNS = ("bss_eval_sources", "sdr", "sdr_pit_loss", "si_bss_eval_sources", "si_sdr", "si_sdr_pit_loss")


def realise(A, N, L):
    """Signals whose squared cosines are known in closed form, for any filter length L.
    A (n, M, K) amplitudes, N (n, M) noise amplitudes.  The references are unit impulses 2L samples apart, so that
    all their shifts are orthonormal; the estimates combine delayed copies of them plus a component out of reach."""
    n, M, K = A.shape
    T = 2 * L * (K + M) + 1
    ref = np.zeros((n, K, T))
    est = np.zeros((n, M, T))
    for k in range(K):
        ref[:, k, 2 * L * k] = 1.0
        for m in range(M):
            est[:, m, 2 * L * k + (k + m) % L] = A[:, m, k]
    for m in range(M):
        # position never reached by a shift of a reference: lag of at least L after each of them
        est[:, m, 2 * L * K + L + m * 2] = N[:, m]
    s = (A**2).sum(-1)  # (n, M)
    tot = s + N**2
    cs = np.swapaxes(A**2 / tot[..., None], -1, -2)  # (n, K, M)
    ca = (s / tot)[:, None, :] + 0 * cs
    return ref, est, cs, ca


def perms_array(K, M):
    return np.array([p for _, p in oracle.assignments(K, M)], dtype=np.int64)


def gather(X, P, K, M):
    """X (n, K, M), P (n, min) -> (n, min)"""
    n = len(X)
    i = np.arange(n)[:, None]
    j = np.arange(P.shape[1])[None, :]
    return X[i, j, P] if K <= M else X[i, P, j]


ALPH = {
    "2x2": (2, 2, (0.05, 0.3, 0.31, 1.0), (0.05, 2.0)),
    "2x3": (2, 3, (0.1, 0.4, 1.0), (0.05, 1.0)),
    "3x2": (3, 2, (0.1, 0.4, 1.0), (0.05, 1.0)),
    "3x3": (3, 3, (0.2, 1.0), (0.1, 1.5)),
    "3x3b": (3, 3, (0.2, 0.7, 1.0), (0.3,)),
    "2x3near": (2, 3, (0.1, 1.0, 1.0005), (0.05, 1.0)),
    "3x2near": (3, 2, (0.1, 1.0, 1.0005), (0.05, 1.0)),
    "2x2far": (2, 2, (1e-4, 1e-2, 0.5, 1.0), (1e-4, 0.3)),
    "1x3": (1, 3, (0.1, 0.4, 1.0), (0.05, 1.0)),
    "3x1": (3, 1, (0.1, 0.4, 1.0), (0.05, 1.0)),
    "2x4": (2, 4, (0.3, 1.0), (0.1, 1.0)),
    "4x2": (4, 2, (0.3, 1.0), (0.1, 1.0)),
    "4x4": (4, 4, (0.3, 1.0), (0.2,)),
    "4x3": (4, 3, (0.3, 1.0), (0.2,)),
}
QUICK = ("2x2", "2x3", "3x2", "2x3near", "3x2near", "2x2far", "3x3", "1x3", "3x1", "2x4", "4x2")


def score_space(c, names, parts, Ls):
    name = c("matrix", names)
    K, M, a, nz = ALPH[name]
    total = len(a) ** (K * M) * len(nz) ** M
    np_ = max(1, min(parts, total // 500))
    return dict(matrix=name, fn=c("fn", FNS), part=c("part", range(np_)), parts=np_, L=c("L", Ls), clamp_db=c("clamp_db", (None, 6.0)),
                backend=c("backend", BACKENDS))


def run_scores(sc, r):
    K, M, a, nz = ALPH[sc["matrix"]]
    fn, L = sc["fn"], sc["L"]
    if fn.startswith("si_"):
        if L != 1:
            r.skipped += 1
            return
    dtype = "float64"
    sp = [a] * (K * M) + [nz] * M
    total = int(np.prod([len(x) for x in sp]))
    idx = np.arange(sc["part"], total, sc["parts"])
    V = np.zeros((len(idx), len(sp)))
    q = idx.copy()
    for j in range(len(sp) - 1, -1, -1):
        V[:, j] = np.array(sp[j])[q % len(sp[j])]
        q //= len(sp[j])
    A, N = V[:, : K * M].reshape(-1, M, K), V[:, K * M :]
    ref, est, cs, ca = realise(A, N, L)
    kw = {}
    if not fn.startswith("si_"):
        kw["filter_length"] = L
    if sc["clamp_db"] is not None:
        kw["clamp_db"] = sc["clamp_db"]
    if fn in ("sdr", "si_sdr"):
        kw["return_perm"] = True
    res = call(fn, sc["backend"], dtype, ref, est, **kw)
    r.calls += 1
    n = len(idx)
    r.states += n
    lab = f"{fn}/{sc['backend']} {sc['matrix']} {kw}"
    if not compare.check_structure(r, res, fn, kw, (n,), K, M, sc["backend"], dtype, lab):
        return
    mats = {"sdr": oracle.to_db(cs, sc["clamp_db"]), "sir": oracle.to_db(cs / ca, sc["clamp_db"]), "sar": oracle.to_db(ca, sc["clamp_db"])}
    kinds = compare.kinds_of(fn)
    sgn = compare.sign_of(fn, kw)
    S = mats["sir" if len(kinds) == 3 else "sdr"]
    P = perms_array(K, M)
    objs = np.stack([gather(S, np.repeat(p[None], n, 0), K, M).sum(-1) for p in P], -1)
    best = objs.max(-1)
    tol = 1e-6  # dB; the closest objectives of the alphabets differ by 1e-3 dB
    if len(res.outs) > len(kinds):
        perm = res.outs[-1]
        srt = np.sort(perm, -1)
        bad = (srt[:, :1] < 0).any(-1) | (srt[:, -1] >= max(K, M)) | (np.diff(srt, axis=-1) == 0).any(-1)
        if bad.any():
            r.fail(lab + ": not one-to-one", perm=perm[np.argmax(bad)])
            return
        obj = gather(S, perm, K, M).sum(-1)
        bad = obj < best - tol
        if bad.any():
            i = int(np.argmax(bad))
            r.fail(lab + f": {int(bad.sum())} of {n} assignments are not optimal", amplitudes=A[i], noise=N[i], perm=perm[i],
                   score=S[i], objective=float(obj[i]), best=float(best[i]))
            return
        for kind, out in zip(kinds, res.outs):
            bad = np.abs(sgn * out - gather(mats[kind], perm, K, M)).max(-1) > 1e-6
            if bad.any():
                i = int(np.argmax(bad))
                r.fail(lab + f": {kind} is not the one of the assigned pairs", amplitudes=A[i], noise=N[i], perm=perm[i], got=out[i],
                       expected=gather(mats[kind], perm, K, M)[i])
                return
    else:
        # no permutation returned: the values must be those of one of the optimal assignments, in output order
        ok = np.zeros(n, bool)
        for j, p in enumerate(P):
            v = gather(mats["sdr"], np.repeat(p[None], n, 0), K, M)
            ok |= (objs[:, j] >= best - tol) & (np.abs(sgn * res.outs[0] - v).max(-1) <= 1e-6)
        if (~ok).any():
            i = int(np.argmax(~ok))
            r.fail(lab + f": {int((~ok).sum())} of {n} losses are not those of an optimal assignment", amplitudes=A[i], noise=N[i],
                   got=res.outs[0][i], score=S[i])
            return
    r.outcome(*res.outs)


def perm_space(c, nmax, exts):
    K = c("K", range(1, nmax + 1))
    M = c("M", range(1, nmax + 1))
    return dict(K=K, M=M, fn=c("fn", FNS), L=c("L", (1, 4)), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_perm(sc, r):
    """All orders of the estimates (or of the references when there are more), one batch item each."""
    K, M, fn, L = sc["K"], sc["M"], sc["fn"], sc["L"]
    if fn.startswith("si_") and L != 1:
        r.skipped += 1
        return
    T = 48
    ref, est = signals.scene(K, M, T, ("c04", K, M), shift=1, snr=0.2)
    n = max(K, M)
    P = list(itertools.permutations(range(n)))
    if len(P) > 130:
        P = P[::7]
    if M >= K:
        R = np.repeat(ref[None], len(P), 0)
        E = np.stack([est[list(p)] for p in P])
    else:
        R = np.stack([ref[list(p)] for p in P])
        E = np.repeat(est[None], len(P), 0)
    kw = {} if fn.startswith("si_") else dict(filter_length=L)
    if fn in ("sdr", "si_sdr"):
        kw["return_perm"] = True
    conf(r, fn, sc["backend"], sc["dtype"], R, E, **kw)


def grid_space(c, shapes):
    K, M = c("KM", ((3, 3), (2, 2), (3, 2), (2, 3), (4, 2), (1, 3), (3, 1)))
    return dict(K=K, M=M, shape=c("batch", shapes), fn=c("fn", FNS), L=c("L", (1, 4)), backend=c("backend", BACKENDS))


def run_grid(sc, r):
    """Batches with several dimensions, items in an order in which no exchange of the dimensions goes unnoticed."""
    K, M, fn, L = sc["K"], sc["M"], sc["fn"], sc["L"]
    if fn.startswith("si_") and L != 1:
        r.skipped += 1
        return
    ref, est = signals.scene(K, M, 40, ("c04g", K, M), shift=1, snr=0.2)
    n = max(K, M)
    P = list(itertools.permutations(range(n)))
    N = int(np.prod(sc["shape"]))
    P = [P[(i * 5 + i * i + 1) % len(P)] for i in range(N)]
    R, E = np.repeat(ref[None], N, 0), np.repeat(est[None], N, 0)
    if M >= K:
        E = np.stack([est[list(p)] for p in P])
    else:
        R = np.stack([ref[list(p)] for p in P])
    kw = {} if fn.startswith("si_") else dict(filter_length=L)
    if fn in ("sdr", "si_sdr"):
        kw["return_perm"] = True
    conf(r, fn, sc["backend"], F64, R.reshape(sc["shape"] + R.shape[1:]), E.reshape(sc["shape"] + E.shape[1:]), **kw)


def build(chk):
    th = chk.thorough
    chk.group("score_matrices", lambda c: score_space(c, tuple(ALPH) if th else QUICK, 32, (1, 3) if not th else (1, 2, 5)), run_scores, timeout=600,
              what="all score matrices over small alphabets (ties, SDR and SIR optima that differ), realised as signals with "
                   "orthonormal shifts so that every metric is known in closed form; brute force over all assignments: "
                   + repr({k: v for k, v in ALPH.items() if th or k in QUICK}))
    chk.group("all_orders", lambda c: perm_space(c, 5 if th else 4, None), run_perm, timeout=300,
              what="all K, M up to the bound, all orders of the channels in one batch, real signals, projection oracle and brute force")
    chk.group("batch_grids", lambda c: grid_space(c, ((2, 2), (3, 3), (2, 3), (2, 2, 2), (4, 1), (1, 4)) + (((3, 3, 3), (5, 5), (2, 2, 2, 2)) if th else ())), run_grid, timeout=300,
              what="batches of one to several dimensions, square ones included, every item in another order")
    chk.group("many_channels", lambda c: many_space(c, MANY + ((16, 16), (2, 20), (13, 12)) if th else MANY, (3, 1), (("bss_eval_sources", {}), ("sdr", dict(return_perm=True)), ("sdr_pit_loss", {}), ("si_bss_eval_sources", {}), ("si_sdr", dict(return_perm=True)), ("si_sdr_pit_loss", {}))), run_many, timeout=300,
              what="up to 12 (thorough: 20) references and estimates, against dynamic programming over subsets")
