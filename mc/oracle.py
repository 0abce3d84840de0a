"""Reference model of the bss_eval metrics, written from the definitions in the documentation:
orthogonal projections onto the span of the L shifts (zero padded, length T+L-1) of the references.

Nothing here uses an FFT, a Toeplitz trick or the library under test.
"""
import itertools

import numpy as np


def shifts(ref, L):
    """(..., K, T) -> (..., T+L-1, K*L): columns are the L shifts of each reference."""
    ref = np.asarray(ref)
    *b, K, T = ref.shape
    A = np.zeros(tuple(b) + (T + L - 1, K * L), dtype=ref.dtype)
    for k in range(K):
        for l in range(L):
            A[..., l : l + T, k * L + l] = ref[..., k, :]
    return A


def pad(est, L):
    w = [(0, 0)] * (est.ndim - 1) + [(0, L - 1)]
    return np.pad(est, w)


# ---------------------------------------------------------------- exact (integer) model
def bareiss_last(M):
    """Fraction free elimination of integer symmetric matrices (..., n, n), no pivoting.
    Returns (d, last) with d = determinant of the leading (n-1) block and last = determinant
    of the full matrix; d == 0 marks a singular leading block."""
    M = M.astype(np.int64).copy()
    n = M.shape[-1]
    prev = np.ones(M.shape[:-2], dtype=np.int64)
    bad = np.zeros(M.shape[:-2], dtype=bool)
    for k in range(n - 1):
        piv = M[..., k, k].copy()
        bad |= piv == 0
        num = M[..., k + 1 :, k + 1 :] * piv[..., None, None] - M[..., k + 1 :, k : k + 1] * M[..., k : k + 1, k + 1 :]
        M[..., k + 1 :, k + 1 :] = num // prev[..., None, None]
        prev = np.where(piv == 0, 1, piv)
    d = np.where(bad, 0, prev)
    return d, M[..., -1, -1]


def exact_coh(refs, est, L):
    """refs (..., K, T) ints, est (..., T) ints (same leading shape).
    Returns (coh, one_minus_coh, valid): both as float64 quotients of exact integers."""
    A = shifts(np.asarray(refs, dtype=np.int64), L)
    e = pad(np.asarray(est, dtype=np.int64), L)
    G = np.einsum("...ti,...tj->...ij", A, A)
    b = np.einsum("...ti,...t->...i", A, e)
    ee = np.einsum("...t,...t->...", e, e)
    n = G.shape[-1]
    M = np.zeros(G.shape[:-2] + (n + 1, n + 1), dtype=np.int64)
    M[..., :n, :n] = G
    M[..., :n, n] = b
    M[..., n, :n] = b
    M[..., n, n] = ee
    d, full = bareiss_last(M)
    valid = (d > 0) & (ee > 0)
    den = np.where(valid, d * ee, 1)
    return (den - full) / den, full / den, valid


# ---------------------------------------------------------------- floating point model
def _corr(x, y, L):
    """r[k] = sum_n x[n] y[n+k] for k in (-L, L), by direct summation; index k+L-1."""
    n = max(len(x), len(y))
    full = np.correlate(y, x, mode="full")  # lag = index - (len(x)-1)
    out = np.zeros(2 * L - 1)
    for k in range(-L + 1, L):
        i = k + len(x) - 1
        if 0 <= i < len(full):
            out[k + L - 1] = full[i]
    return out


def normal_equations(ref, est, L):
    """Gram matrix of the shifts (K*L, K*L), right hand sides (K*L, M), est energies."""
    ref, est = np.asarray(ref, dtype=np.float64), np.asarray(est, dtype=np.float64)
    K, T = ref.shape
    M = est.shape[0]
    if (T + L) * K * L <= 400_000:
        A = shifts(ref, L)
        e = pad(est, L)
        return A.T @ A, A.T @ e.T, (e * e).sum(-1)
    idx = np.arange(L)[:, None] - np.arange(L)[None, :]
    G = np.zeros((K * L, K * L))
    for k in range(K):
        for l in range(K):
            r = _corr(ref[k], ref[l], L)  # sum_n s_k[n] s_l[n+lag]
            # <shift_i s_k, shift_j s_l> = sum_n s_k[n-i] s_l[n-j] = r[i-j]
            G[k * L : (k + 1) * L, l * L : (l + 1) * L] = r[idx + L - 1]
    B = np.zeros((K * L, M))
    for k in range(K):
        for m in range(M):
            r = _corr(ref[k], est[m], L)
            B[k * L : (k + 1) * L, m] = r[L - 1 :]
    return G, B, (est * est).sum(-1)


class Model:
    """Pairwise square cosines of one (ref, est) pair of signal sets.

    cs[k, m]: squared cosine between est m and the shifts of ref k   (SDR = 10 log10 cs/(1-cs))
    ca[m]   : squared cosine between est m and the shifts of all refs (SAR)
    SIR     : 10 log10 cs/(ca-cs)
    ds/da/di are 1-cs, 1-ca and 1-cs/ca computed without cancellation from residual energies.
    cond is the condition number of the (unit normalized, loaded) joint Gram matrix.
    """

    def __init__(self, ref, est, L, zero_mean=False, load_diag=None, with_sar=True):
        ref, est = np.asarray(ref, dtype=np.float64), np.asarray(est, dtype=np.float64)
        if zero_mean:
            ref = ref - ref.mean(-1, keepdims=True)
            est = est - est.mean(-1, keepdims=True)
        nr = np.sqrt((ref * ref).sum(-1, keepdims=True))
        ne = np.sqrt((est * est).sum(-1, keepdims=True))
        ref = ref / np.where(nr > 0, nr, 1)
        est = est / np.where(ne > 0, ne, 1)
        K, M = ref.shape[0], est.shape[0]
        G, B, _ = normal_equations(ref, est, L)
        lam = 0.0 if load_diag is None else float(load_diag)
        self.K, self.M, self.L = K, M, L
        self.cs = np.zeros((K, M))
        # a single tap needs no system for one reference: the projection of a unit vector on a unit
        # vector is closed form and never loaded (a silent reference projects to zero)
        lam_s = 0.0 if L == 1 else lam
        for k in range(K):
            s = slice(k * L, (k + 1) * L)
            self.cs[k] = B[s][0] ** 2 if L == 1 else self._q(G[s, s] + lam_s * np.eye(L), B[s])
        self.ca = self._q(G + lam * np.eye(K * L), B) if with_sar else None
        self.G, self.B, self.lam = G, B, lam
        self._cond = None

    @staticmethod
    def _q(G, B):
        try:
            return np.einsum("lm,lm->m", B, np.linalg.solve(G, B))
        except np.linalg.LinAlgError:
            return np.full(B.shape[1], np.nan)

    @property
    def cond(self):
        if self._cond is None:
            # a silent reference has a zero block: it is decoupled from the others by any loading
            keep = np.diag(self.G) > 0
            if self.lam == 0:
                keep[:] = True
            if not keep.any():
                keep[:1] = True
            G = (self.G + self.lam * np.eye(len(self.G)))[np.ix_(keep, keep)]
            if len(G) > 300:
                self._cond = float(np.linalg.norm(G, 1) * np.linalg.norm(np.linalg.inv(G), 1))
            else:
                w = np.linalg.eigvalsh(G)
                self._cond = float(w[-1] / w[0]) if w[0] > 0 else np.inf
        return self._cond

    @property
    def cond_sdr(self):
        L = self.L
        if L == 1:
            return 1.0
        c = 1.0
        for k in range(self.K):
            s = slice(k * L, (k + 1) * L)
            if self.lam > 0 and self.G[s, s][0, 0] == 0:
                continue
            w = np.linalg.eigvalsh(self.G[s, s] + self.lam * np.eye(L))
            c = max(c, w[-1] / w[0] if w[0] > 0 else np.inf)
        return float(c)

    def mats(self):
        ca = np.broadcast_to(self.ca, (self.K, self.M))
        with np.errstate(all="ignore"):
            ci = self.cs / ca
        return dict(sdr=self.cs, sir=ci, sar=ca)


def to_db(c, clamp_db=None):
    with np.errstate(all="ignore"):
        c = np.clip(c, 0.0, 1.0)
        db = 10.0 * (np.log10(c) - np.log10(1.0 - c))
    if clamp_db is not None:
        db = np.clip(db, -clamp_db, clamp_db)
    return db


def from_db(db):
    """SDR in dB -> squared cosine."""
    with np.errstate(all="ignore"):
        return 1.0 / (1.0 + 10.0 ** (-np.asarray(db, dtype=np.float64) / 10.0))


# ---------------------------------------------------------------- assignment model
def assignments(K, M):
    """All maximal one-to-one assignments as lists of (ref, est) pairs ordered as the library
    orders them: by reference when K <= M, by estimate otherwise."""
    if K <= M:
        for p in itertools.permutations(range(M), K):
            yield [(k, p[k]) for k in range(K)], p
    else:
        for p in itertools.permutations(range(K), M):
            yield [(p[m], m) for m in range(M)], p


def assignment_key(score, pairs):
    """Lexicographic objective: number of +inf scores minus number of -inf scores, then finite sum."""
    v = np.array([score[k, m] for k, m in pairs])
    return (int(np.isposinf(v).sum()) - int(np.isneginf(v).sum()), float(v[np.isfinite(v)].sum()))


def pairs_of(perm, K, M):
    perm = [int(x) for x in perm]
    if K <= M:
        return [(k, perm[k]) for k in range(K)]
    return [(perm[m], m) for m in range(M)]


def valid_perm(perm, K, M):
    n, top = min(K, M), max(K, M)
    perm = list(perm)
    return len(perm) == n and len(set(int(x) for x in perm)) == n and all(0 <= int(x) < top for x in perm)


def best_assignment(score):
    """Value and pairs of the best maximal assignment of a (K, M) score matrix by dynamic programming over subsets of the
    smaller side (for sizes beyond the enumeration of all assignments)."""
    score = np.asarray(score, dtype=np.float64)
    K, M = score.shape
    S = score if K <= M else score.T  # rows: smaller side
    n, m = S.shape
    masks = np.arange(1 << n)
    val = np.full(1 << n, -np.inf)
    val[0] = 0.0
    choice = []
    for j in range(m):
        new, ch = val.copy(), np.full(1 << n, -1)
        for i in range(n):
            has = masks[(masks >> i) & 1 == 1]
            cand = val[has ^ (1 << i)] + S[i, j]
            better = cand > new[has]
            new[has[better]], ch[has[better]] = cand[better], i
        val = new
        choice.append(ch)
    mask, pairs = (1 << n) - 1, []
    total = float(val[mask])
    for j in range(m - 1, -1, -1):
        i = int(choice[j][mask])
        if i >= 0:
            pairs.append((i, j) if K <= M else (j, i))
            mask ^= 1 << i
    return total, sorted(pairs, key=lambda p: p[0] if K <= M else p[1])
