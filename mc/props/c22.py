"""C22: degenerate estimates: every combination of perfect, filtered, orthogonal, silent and ordinary estimates."""
import itertools

import numpy as np

from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import FUNCS, NP, TORCH, call, kwargs_for

T = 112


def references(K, geometry, L):
    """overlap: refs share their support (estimate k is neither perfect nor orthogonal for another reference);
    disjoint: supports further apart than the filter, so that a perfect estimate of one is orthogonal to the others."""
    s = np.zeros((K, T))
    for k in range(K):
        if geometry == "overlap":
            s[k, :64] = signals.noise(("c22", k), 64)
        else:
            s[k, 30 * k: 30 * k + 18] = signals.noise(("c22", k), 18)
    return s


def letters(K):
    out = ["mix0"]
    for k in range(K):
        out += [f"perfect{k}", f"filtered{k}"]
    out += ["silent", "orthogonal", "mix1"]
    for k in range(K):
        out.append(f"noisy{k}")  # target plus noise orthogonal to every reference
    return tuple(out)


def estimate(name, s, m, L):
    K = len(s)
    O = np.zeros(T)
    O[98 : 98 + 12] = signals.noise(("c22o", m), 12)
    kind, k = (name[:-1], int(name[-1])) if name[-1].isdigit() else (name, 0)
    g = (-3.0, 0.25, 40.0)[m % 3]
    if kind == "perfect":
        return g * s[k]
    if kind == "filtered":
        h = [0.9, -0.5, 0.3, 0.2][: min(L, 4)]
        return g * np.convolve(s[k], h)[:T]
    if kind == "silent":
        return np.zeros(T)
    if kind == "orthogonal":
        return g * O
    if kind == "noisy":
        return g * (s[k] + 0.3 * O)
    e = 0.4 * O
    for j in range(K):
        e = e + (1.0 + (0.8 if (j + m + k) % K == 0 else 0.0) - 0.3 * j) * np.convolve(s[j], [1.0, 0.3][: min(L, 2)])[:T]
    return e


def classify(c, t, undefined):
    """perfect / zero / finite / undefined for every cell of a squared cosine matrix."""
    return np.where(undefined, "u", np.where(c + t >= 1.0, "p", np.where(c - t <= 0.0, "z", "f")))


def permuted(r, res, fn, kw, cells, lab):
    """Functions that solve the permutation."""
    kinds, sgn = kinds_of(fn), sign_of(fn, kw)
    K, M, n = cells.K, cells.M, min(cells.K, cells.M)
    full = len(kinds) == 3
    kind = "sir" if full else "sdr"
    cl = classify(cells.c[kind], cells.t[kind], cells.undefined[kind])
    clamp = kw.get("clamp_db")
    silent = cells.silent
    if full and silent.any():
        if res.ok or not isinstance(res.exc, ValueError):
            r.fail(lab + f": SIR-based permutation with a silent estimate did not raise ValueError ({res.exc!r})")
        return
    mixed = clamp is None and (cl == "p").any() and (cl == "z").any()
    if full and (cl == "u").any():
        # estimate orthogonal to every reference: no target, no interference; only the structure is looked at
        if not res.ok and not isinstance(res.exc, ValueError):
            r.fail(lab + f": {res.exc!r}")
        r.add("SIR undefined")
        return
    if not res.ok and mixed and isinstance(res.exc, ValueError):
        r.add("ValueError for both infinities")
        return
    if not compare.check_structure(r, res, fn, kw, (), K, M, sc_backend[0], sc_backend[1], lab):
        return
    cand = list(oracle.assignments(K, M))
    if len(res.outs) > len(kinds):
        perm = [int(x) for x in res.outs[-1]]
        if not oracle.valid_perm(perm, K, M):
            r.fail(lab + f": not a one-to-one assignment: {perm}")
            return
        chosen = [oracle.pairs_of(perm, K, M)]
    else:
        chosen = [p for p, _ in cand]
    lo, hi = cells.interval(kind)

    def counts(p):
        v = [cl[k, m] for k, m in p]
        return v.count("p"), v.count("z")

    def acceptable(p):
        if mixed:
            return True
        if clamp is not None:
            return sum(hi[k, m] for k, m in p) >= max(sum(lo[k, m] for k, m in q) for q, _ in cand) - 1e-6
        P, Z = counts(p)
        bestP = max(counts(q)[0] for q, _ in cand)
        leastZ = min(counts(q)[1] for q, _ in cand)
        if P != bestP or Z != leastZ:
            return False
        top = [q for q, _ in cand if counts(q) == (P, Z)]

        def fin(q, b):
            return sum(b[k, m] for k, m in q if cl[k, m] == "f")

        if P and any({(k, m) for k, m in q if cl[k, m] == "p"} != {(k, m) for k, m in p if cl[k, m] == "p"} for q in top):
            return True  # several sets of perfect pairs: their finite values are rounding noise
        if Z and clamp is None and any({(k, m) for k, m in q if cl[k, m] == "z"} != {(k, m) for k, m in p if cl[k, m] == "z"} for q in top):
            return True  # same for several sets of hopeless pairs
        return fin(p, hi) >= max(fin(q, lo) for q in top)

    ok = [p for p in chosen if acceptable(p)]
    if not ok:
        r.fail(lab + ": the assignment does not select the perfect pairs (or avoids fewer hopeless ones than possible)", perm=res.outs[-1] if len(res.outs) > len(kinds) else None, classes=cl.tolist())
        return
    err = None
    for p in ok:
        err = None
        for kd, out in zip(kinds, res.outs):
            a, b = cells.interval(kd)
            v = sgn * np.asarray(out, dtype=np.float64).ravel()
            for j, (k, m) in enumerate(p):
                if compare.outside(v[j], a[k, m], b[k, m]):
                    err = dict(metric=kd, pair=(k, m), got=float(v[j]), lo=float(a[k, m]), hi=float(b[k, m]))
                    break
            if err:
                break
        if err is None:
            r.outcome(*res.outs)
            return
    r.fail(lab + ": value differs from the definition (or is NaN)", **err)


sc_backend = [None, None]


def run(sc, r):
    fn, b, dt, kw, K = sc["fn"], sc["backend"], sc["dtype"], sc["kw"], sc["K"]
    L = compare.flen(fn, kw)
    s = references(K, sc["geometry"], L)
    e = np.stack([estimate(n, s, m, L) for m, n in enumerate(sc["estimates"])])
    s, e = s.astype(dt), e.astype(dt)
    lab = f"{fn}/{b}/{dt} {kw} K={K} {sc['geometry']} estimates={sc['estimates']}"
    if sc.get("wrap"):
        # in a batch, next to an ordinary item
        s2, e2 = signals.scene(K, len(e), T, "c22w")
        res = call(fn, b, dt, np.stack([s, s2.astype(dt)]), np.stack([e, e2.astype(dt)]), **kw)
        if res.ok:
            res.outs = [o[0] for o in res.outs]
            res.raw = tuple(o[0] for o in res.raw) if res.tuple else res.raw[0]
    else:
        res = call(fn, b, dt, s, e, **kw)
    r.calls += 1
    r.states += 1
    rs, re = s.astype(F64), e.astype(F64)
    cells = compare.Cells(rs, re, L, dt, kw.get("zero_mean", False), kw.get("load_diag"), kw.get("clamp_db"), with_sar=len(kinds_of(fn)) == 3, cfac=100)
    cells.silent = ~(re != 0).any(-1)
    sc_backend[:] = [b, dt]
    if compare.mode_of(fn, kw) == "perm":
        permuted(r, res, fn, kw, cells, lab)
        return
    if not compare.check_structure(r, res, fn, kw, (), K, len(e), b, dt, lab):
        return
    n0 = len(r.violations)
    compare.check_item(r, cells, fn, kw, res.outs, lab, ())
    if len(r.violations) == n0:
        # explicitly: very large / very low, never NaN (the SIR of a silent or unrelated estimate is 0/0)
        big = 35.0 if dt == F32 else 90.0
        for kd, out in zip(kinds_of(fn), res.outs):
            v = sign_of(fn, kw) * np.asarray(out, dtype=np.float64)
            cl = classify(cells.c[kd], cells.t[kd], cells.undefined[kd])
            cl = cl if v.ndim == 2 else np.diag(cl)
            lim = min(big, kw.get("clamp_db") or np.inf) * 0.999
            bad = (cl == "p") & ~(v >= lim) | (cl == "z") & ~(v <= -lim) | (cl != "u") & np.isnan(v)
            if bad.any():
                r.fail(lab + f": {kd} of a perfect pair is not very large or of a hopeless one not very low", got=v, classes=cl.tolist())
                return
        r.outcome(*res.outs)


OPT = Opts(filter_length=(4, 1, 7), clamp_db=(None, 25.0), load_diag=(None,), zero_mean=(None,), return_perm=(True, None))


def kinds_of(fn):  # noqa: F811
    return compare.kinds_of(fn)


sign_of = compare.sign_of


def space(c, kms, geoms, alpha, dts, dev_wrap=True, bound_opts=1, fns=FUNCS):
    fn = c("function", fns)
    K, M = c("channels", kms)
    geom = c("geometry", geoms)
    est = tuple(c(f"estimate {m}", alpha(K)) for m in range(M))
    kw = OPT.draw(c, fn, 1)
    b = c("back end", (NP, TORCH))
    dt = c("precision", dts)
    w = c("batched", (False, True), 1)
    if needs_square(fn, kw) and K != M:
        raise Skip
    return dict(fn=fn, backend=b, dtype=dt, K=K, geometry=geom, estimates=est, kw=kw, wrap=w)


def short(K):
    return ("mix0",) + tuple(f"perfect{k}" for k in range(K)) + ("silent", "noisy0")


def build(chk):
    th = chk.thorough
    G = ("overlap", "disjoint")
    chk.group("one", lambda c: space(c, ((1, 1), (1, 2), (2, 1)), G, letters, (F64, F32)), run, bound=2 if th else 1, what="one reference or one estimate, every letter")
    chk.group("two", lambda c: space(c, ((2, 2),), G, letters, (F64, F32) if th else (F64,)), run, bound=2 if th else 1, what="every pair of estimates from {ordinary, perfect, filtered, noisy target, orthogonal, silent}, all functions and options")
    if not th:
        chk.group("two32", lambda c: space(c, ((2, 2),), G, letters, (F32,)), run, bound=0, what="the same in single precision")
    chk.group("rectangular", lambda c: space(c, ((2, 3), (3, 2)), G, letters if th else short, (F64,), fns=tuple(f for f in FUNCS if f not in ("sdr_loss", "si_sdr_loss"))), run, bound=1 if th else 0,
              what="rectangular: every tuple of estimates")
    chk.group("three", lambda c: space(c, ((3, 3),), G, letters if th else short, (F64,), fns=("sdr", "bss_eval_sources", "si_sdr", "sdr_pit_loss") if not th else FUNCS), run, bound=0, what="every triple of estimates")
    if th:
        chk.group("four", lambda c: space(c, ((4, 4),), ("overlap",), short, (F64,), fns=("sdr", "si_sdr", "bss_eval_sources")), run, bound=0, what="every quadruple of ordinary, perfect, silent and noisy estimates")
    chk.assume("score matrices that (up to rounding) contain both +inf and -inf may raise ValueError, as documented; the SIR of a silent estimate or of one orthogonal to every reference is undefined")
