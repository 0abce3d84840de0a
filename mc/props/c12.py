"""C12: invariance to gain, polarity, surrounding silence and channel order."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import BACKENDS, DTYPES, FUNCS, NP, TORCH, call

FN = FUNCS + ("ns:pairwise_sdr_loss", "ns:pairwise_si_sdr_loss")
# 2e-6: the channel is scaled to that norm, just above the documented limit of 1e-6
G64 = (1.0, -1.0, 2e-6, -3e7, 1e80)
G32 = (1.0, -1.0, 2e-6, -3e7, 1e12)


def opts(c, fn, **a):
    return Opts(filter_length=(4, 1), **a).draw(c, fn, exclude=("change_sign", "use_cg_iter"))


def gain_space(c, kms):
    fn = c("fn", FN)
    K, M = c("KM", kms)
    kw = opts(c, fn)
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, K=K, M=M, kw=kw, backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def invariant(r, fn, b, dt, R, E, kw, base_ref, base_est, label, mapping=None):
    """All items of the batch must conform to the model of the base signals (mapping: per item (ref order, est order))."""
    res = call(fn, b, dt, R, E, **kw)
    r.calls += 1
    n = len(R)
    r.states += n
    K, M = R.shape[-2], E.shape[-2]
    lab = f"{fn}/{b}/{dt} {kw} {label}"
    if not compare.check_structure(r, res, fn, kw, (n,), K, M, b, dt, lab):
        return
    with_sar = len(compare.kinds_of(fn)) == 3
    cells = None
    for i in range(n):
        br, be = (base_ref, base_est) if mapping is None else (base_ref[mapping[i][0]], base_est[mapping[i][1]])
        if cells is None or mapping is not None:
            cells = compare.Cells(br, be, compare.flen(fn, kw), dt, kw.get("zero_mean", False), compare.effective_load(fn, kw), kw.get("clamp_db"), with_sar)
        compare.check_item(r, cells, fn, kw, [o[i] for o in res.outs], lab, i)
        if r.violations:
            return
    r.outcome(*res.outs)


def run_gain(sc, r):
    fn, K, M, kw, b, dt = sc["fn"], sc["K"], sc["M"], sc["kw"], sc["backend"], sc["dtype"]
    ref, est = signals.scene(K, M, 37, "c12")
    if kw.get("zero_mean"):
        ref = ref + 0.3
    words = np.array(list(itertools.product(G64 if dt == F64 else G32, repeat=K + M)))
    nrm = np.sqrt((np.concatenate([ref, est]) ** 2).sum(-1))
    words = np.where(words == 2e-6, 2e-6 / nrm, words)
    R, E = ref[None] * words[:, :K, None], est[None] * words[:, K:, None]
    # powers of ten round the samples: the model of the unscaled signals holds up to that rounding
    invariant(r, fn, b, dt, R, E, kw, rounded(ref, dt), rounded(est, dt), "gains")


PADS = (0, 1, 2, 7, 64)


def pad_space(c, pads):
    fn = c("fn", FN)
    kw = opts(c, fn, zero_mean=(None,))
    return dict(fn=fn, kw=kw, lead=c("lead", pads), trail=c("trail", pads), T=c("T", (25, 32)), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_pad(sc, r):
    ref, est = signals.scene(2, 2, sc["T"], "c12p")
    w = [(0, 0), (sc["lead"], sc["trail"])]
    invariant(r, sc["fn"], sc["backend"], sc["dtype"], np.pad(ref, w)[None], np.pad(est, w)[None], sc["kw"], rounded(ref, sc["dtype"]), rounded(est, sc["dtype"]),
              f"padding {sc['lead']},{sc['trail']}")


def order_space(c, kms):
    fn = c("fn", FN)
    K, M = c("KM", kms)
    kw = opts(c, fn)
    if needs_square(fn, kw) and K != M:
        raise Skip()
    if fn in ("sdr", "si_sdr"):
        kw["return_perm"] = True
    return dict(fn=fn, K=K, M=M, kw=kw, backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_order(sc, r):
    """All orders of the references x all orders of the estimates."""
    fn, K, M, kw, b, dt = sc["fn"], sc["K"], sc["M"], sc["kw"], sc["backend"], sc["dtype"]
    ref, est = signals.scene(K, M, 40, ("c12o", K, M))
    P = [(list(p), list(q)) for p in itertools.permutations(range(K)) for q in itertools.permutations(range(M))]
    if len(P) > 150:
        P = P[:: len(P) // 150 + 1]
    R = np.stack([ref[p] for p, q in P])
    E = np.stack([est[q] for p, q in P])
    ref, est = rounded(ref, dt), rounded(est, dt)
    invariant(r, fn, b, dt, R, E, kw, ref, est, "orders", mapping=P)
    if r.violations:
        return
    # the set of (pair, metric) found is the same for all the orders
    if K == 1 and "bss" in fn:
        return  # the SIR of a single reference is +inf for every estimate: a tie
    if compare.mode_of(fn, kw) != "perm" or compare.n_outputs(fn, kw) == 1:
        return
    res = call(fn, b, dt, R, E, **kw)
    r.calls += 1
    first = None
    for i, (p, q) in enumerate(P):
        pr = oracle.pairs_of(res.outs[-1][i].tolist(), K, M)
        found = sorted((p[k], q[m]) for k, m in pr)
        first = first or found
        if found != first and kw.get("clamp_db") is None:  # clamping creates ties
            r.fail(f"{fn}/{b}/{dt} {kw}: the pairs assigned depend on the order of the channels", order=(p, q), pairs=found, expected=first)
            return


def exact_space(c, tmax):
    return dict(T=c("T", range(2, tmax + 1)), L=c("L", (1, 2, 3)), lead=c("lead", (0, 1, 3)), trail=c("trail", (0, 1, 4)), sign=c("sign", ((1, 1), (-1, 1), (1, -1), (-1, -1))),
                gain=c("gain", ((1, 1), (2.0**-12, 1), (1, 2.0**30))), backend=c("backend", BACKENDS))


def run_exact(sc, r):
    """All pairs of {-1,0,1} signals under padding, polarity and power-of-two gains: same exact value."""
    T, L = sc["T"], sc["L"]
    S = all_signals(T)
    n = len(S)
    R, E = np.repeat(S, n, 0), np.tile(S, (n, 1))
    co, d, valid = oracle.exact_coh(R[:, None], E, L)
    cond = np.repeat(toeplitz_cond(S[:, None], L), n)
    e = compare.CFAC * compare.eps_of(F64) * cond
    lo, hi = db_interval_exact(co, d, e * np.sqrt(co) + e**2)
    w = [(0, 0), (sc["lead"], sc["trail"])]
    A = np.pad(S * sc["sign"][0] * sc["gain"][0], w)
    B = np.pad(S * sc["sign"][1] * sc["gain"][1], w)
    res = call("sdr_loss", sc["backend"], F64, A, B, filter_length=L, pairwise=True)
    r.calls += 1
    r.states += n * n
    if not res.ok:
        r.fail(f"raised {res.exc}")
        return
    check_bounds(r, res.outs[0], (-hi).reshape(n, n), (-lo).reshape(n, n), f"sdr_loss {sc}", lambda i: dict(ref=A[i[0]], est=B[i[1]]))
    r.outcome(res.outs[0])


def build(chk):
    th = chk.thorough
    chk.group("gains", lambda c: gain_space(c, ((2, 2), (1, 2), (2, 1), (3, 2), (2, 3)) if th else ((2, 2), (1, 2), (2, 1))), run_gain, timeout=200,
              what="all assignments of the gains +1, -1, -3e7, down to a norm of 2e-6,, 1e80 (single precision 1e12) to every channel x functions x options: model of the unscaled signals")
    chk.group("padding", lambda c: pad_space(c, (0, 1, 2, 3, 7, 8, 31, 64, 100) if th else PADS), run_pad, what="all leading x trailing silences x functions x options")
    chk.group("orders", lambda c: order_space(c, ((2, 2), (3, 3), (2, 3), (3, 2), (1, 3), (3, 1), (4, 4), (2, 4), (4, 2)) if th else ((2, 2), (3, 3), (2, 3), (3, 2), (1, 3), (3, 1))), run_order, timeout=200,
              what="all orders of the references x all orders of the estimates x functions x options")
    chk.group("exact_small", lambda c: exact_space(c, 4 if th else 3), run_exact, what="all pairs of {-1,0,1} signals x padding x polarity x gain, exact oracle of the original pair")
