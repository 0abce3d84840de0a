"""Closed form gradients of the metrics (envelope theorem), independent of any autograd engine.

c = max_h 2 <A h, e> - |A h|^2 - d |h|^2, hence at the optimal h
  dc/de[t]   = 2 (A h)[t]
  dc/ds_k[t] = 2 sum_l h_{k,l} (e - A h)[t + l]
followed by the chain rules of the unit normalization, the mean removal and the decibels.
"""
import numpy as np

from . import oracle

LN10 = np.log(10.0)


def _proj(sub, e, L, lam):
    """c, dc/dsub, dc/de for normalized signals sub (n, T), e (T)."""
    n, T = sub.shape
    A = oracle.shifts(sub, L)
    ep = oracle.pad(e, L)
    G = A.T @ A + lam * np.eye(n * L)
    b = A.T @ ep
    h = np.linalg.solve(G, b)
    y = A @ h
    c = float(b @ h)
    res = ep - y
    gs = np.zeros((n, T))
    for k in range(n):
        for l in range(L):
            gs[k] += 2 * h[k * L + l] * res[l: l + T]
    return c, gs, 2 * y[:T]


def _unnormalize(x, g, eps=1e-6):
    n = np.linalg.norm(x)
    if n < eps:
        return g / eps
    u = x / n
    return (g - u * (u @ g)) / n


def _ddb(c, clamp):
    """d/dc of 10 log10(c/(1-c)), zero when saturated."""
    if clamp is not None and abs(oracle.to_db(c)) >= clamp:
        return 0.0
    return 10.0 / LN10 / (c * (1.0 - c))


def gradient(ref, est, L, terms, zero_mean=False, load_diag=None, clamp_db=None):
    """Gradient of sum of w * metric over terms = [(kind, k, m, w)], metrics in dB."""
    ref, est = np.asarray(ref, dtype=np.float64), np.asarray(est, dtype=np.float64)
    r0 = ref - ref.mean(-1, keepdims=True) if zero_mean else ref
    e0 = est - est.mean(-1, keepdims=True) if zero_mean else est
    rn = r0 / np.maximum(np.linalg.norm(r0, axis=-1, keepdims=True), 1e-6)
    en = e0 / np.maximum(np.linalg.norm(e0, axis=-1, keepdims=True), 1e-6)
    lam = load_diag or 0.0
    lam_s = 0.0 if L == 1 else lam
    gr, ge = np.zeros_like(ref), np.zeros_like(est)
    cache = {}

    def single(k, m):
        if (k, m) not in cache:
            if L == 1:
                x = rn[k] @ en[m]
                cache[k, m] = (x * x, 2 * x * en[m][None], 2 * x * rn[k])
            else:
                cache[k, m] = _proj(rn[k: k + 1], en[m], L, lam_s)
        return cache[k, m]

    def joint(m):
        if m not in cache:
            cache[m] = _proj(rn, en[m], L, lam)
        return cache[m]

    def add(gs_rows, rows, gev, m, w):
        for i, k in enumerate(rows):
            gr[k] += w * gs_rows[i]
        ge[m] += w * gev

    K = len(ref)
    for kind, k, m, w in terms:
        if kind == "sdr":
            c, gs, g = single(k, m)
            add(gs, [k], g, m, w * _ddb(c, clamp_db))
        elif kind == "sar":
            c, gs, g = joint(m)
            add(gs, range(K), g, m, w * _ddb(c, clamp_db))
        else:
            cs, gs, g = single(k, m)
            ca, gsa, ga = joint(m)
            d = _ddb(cs / ca, clamp_db)
            add(gs, [k], g, m, w * d / ca)
            add(gsa, range(K), ga, m, -w * d * cs / ca**2)
    gr = np.stack([_unnormalize(r0[k], gr[k]) for k in range(K)])
    ge = np.stack([_unnormalize(e0[m], ge[m]) for m in range(len(est))])
    if zero_mean:
        gr -= gr.mean(-1, keepdims=True)
        ge -= ge.mean(-1, keepdims=True)
    return gr, ge
