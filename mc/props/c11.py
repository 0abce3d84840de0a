"""C11: zero_mean is per-channel mean removal."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import BACKENDS, DTYPES, FUNCS, NP, TORCH, call

FN = FUNCS + ("ns:pairwise_sdr_loss", "ns:pairwise_si_sdr_loss")
OFF = (0.0, 0.7, -20.0)


def space(c, kms):
    fn = c("fn", FN)
    K, M = c("KM", kms)
    kw = Opts(filter_length=(4, 1), zero_mean=(True,)).draw(c, fn, exclude=("change_sign", "use_cg_iter"))
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, K=K, M=M, kw=kw, backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run(sc, r):
    """All assignments of an offset to every channel of every reference and estimate, as one batch."""
    fn, K, M, kw, b, dt = sc["fn"], sc["K"], sc["M"], sc["kw"], sc["backend"], sc["dtype"]
    T = 33
    ref, est = signals.scene(K, M, T, "c11")
    ref = ref - ref.mean(-1, keepdims=True)
    est = est - est.mean(-1, keepdims=True)
    words = np.array(list(itertools.product(OFF, repeat=K + M)))
    if len(words) > 243:
        words = words[::3]
    R = ref[None] + words[:, :K, None]
    E = est[None] + words[:, K:, None]
    # 1. the definition (the model removes the means of what the library actually receives)
    if not conf(r, fn, b, dt, R, E, **kw):
        return
    if K == 1 and "bss" in fn and compare.mode_of(fn, kw) == "perm":
        # the SIR of a single reference is infinite (up to rounding) for every estimate: any assignment is optimal
        # and the items may legitimately select different estimates; step 1 has checked each of them
        r.add("ties_left_to_the_definition")
        return
    # 2. all items equal the first one (no offset at all), up to the rounding of the offsets themselves
    res = call(fn, b, dt, R, E, **kw)
    r.calls += 1
    for nm, o in zip(compare.kinds_of(fn), res.outs):
        if not same_db(r, o, np.repeat(o[:1], len(o), 0), ctol(dt, 600.0 if dt == F32 else 1e5), f"{fn}/{b}/{dt} {kw}: {nm} changes with the offsets"):
            return
    # 3. zero_mean=False on signals without mean
    k0 = {k: v for k, v in kw.items() if k != "zero_mean"}
    D = call(fn, b, dt, ref, est, **k0)
    D2 = call(fn, b, dt, ref, est, **dict(k0, zero_mean=False))
    r.calls += 2
    for x, nm in ((D, "default"), (D2, "zero_mean=False")):
        if not x.ok:
            r.fail(f"{fn}/{b}/{dt} {k0}: {nm} raised {x.exc}")
            return
        for o, q in zip(res.outs[: len(compare.kinds_of(fn))], x.outs):
            if not same_db(r, o[0], q, ctol(dt, 200.0), f"{fn}/{b}/{dt} {kw}: differs from {nm} on signals without mean"):
                return
    # 4. without the option the offsets are part of the signals
    conf(r, fn, b, dt, R[::7], E[::7], **k0)


def length_space(c, Ts):
    return dict(T=c("T", Ts), L=c("L", (1, 2, 7)), fn=c("fn", ("sdr_loss", "sdr", "bss_eval_sources", "si_sdr_loss", "si_bss_eval_sources")), batch=c("batch", ((), (2, 2))),
                backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_length(sc, r):
    if sc["fn"].startswith("si_") and sc["L"] != 1:
        r.skipped += 1
        return
    if "bss" in sc["fn"] and 2 * sc["L"] > 0.7 * sc["T"]:
        r.skipped += 1
        return
    ref, est = signals.batch(sc["batch"], 2, 2, sc["T"], "c11l", letters=("offset", "ar"))
    ref[..., 0, :] += 3.0
    est[..., 1, :] -= 2.0
    kw = {} if sc["fn"].startswith("si_") else dict(filter_length=sc["L"])
    if sc["fn"] == "sdr_loss":
        kw["pairwise"] = True
    conf(r, sc["fn"], sc["backend"], sc["dtype"], ref, est, zero_mean=True, **kw)


def exact_space(c, tmax):
    return dict(T=c("T", range(2, tmax + 1)), L=c("L", (1, 2, 3)), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_exact(sc, r):
    """All pairs of small integer signals that are not constant; T*x - sum(x) is the exact integer mean removal."""
    T, L, dt = sc["T"], sc["L"], sc["dtype"]
    S = all_signals(T, (0, 1, 2))
    Z = S * T - S.sum(-1, keepdims=True)
    keep = (Z != 0).any(-1)
    S, Z = S[keep], Z[keep]
    n = len(S)
    R, E = np.repeat(Z, n, 0), np.tile(Z, (n, 1))
    co, d, valid = oracle.exact_coh(R[:, None], E, L)
    assert valid.all()
    cond = np.repeat(toeplitz_cond(Z[:, None], L), n)
    amp = (np.sqrt((S**2.0).sum(-1)) * T / np.sqrt((Z**2.0).sum(-1))).max()
    e = compare.CFAC * compare.eps_of(dt) * cond * amp
    lo, hi = db_interval_exact(co, d, e * np.sqrt(co) + e**2)
    fns = [("sdr_loss", dict(filter_length=L, zero_mean=True, pairwise=True))]
    if L == 1:
        fns.append(("si_sdr_loss", dict(zero_mean=True, pairwise=True)))
    for fn, kw in fns:
        res = call(fn, sc["backend"], dt, S, S, **kw)
        r.calls += 1
        r.states += n * n
        if not res.ok:
            r.fail(f"{fn} {kw} raised {res.exc}")
            return
        check_bounds(r, res.outs[0], (-hi).reshape(n, n), (-lo).reshape(n, n), f"{fn} {kw} {sc['backend']} {dt}", lambda i: dict(ref=S[i[0]], est=S[i[1]]))
        r.outcome(res.outs[0])


def build(chk):
    th = chk.thorough
    chk.group("offsets", lambda c: space(c, ((2, 2), (1, 1), (2, 3), (3, 2)) if th else ((2, 2), (1, 2), (2, 1), (1, 1))), run, timeout=200,
              what="all assignments of the offsets " + repr(OFF) + " to every channel x ten functions x options x back ends x precisions: the definition, "
                   "independence from the offsets, equality with zero_mean=False on centred signals")
    chk.group("lengths", lambda c: length_space(c, (2, 3, 5, 16, 17, 100, 1000) if not th else tuple(range(2, 40)) + (100, 127, 128, 129, 1000)), run_length,
              what="signal lengths x filter lengths x batch shapes with offsets")
    chk.group("exact_small", lambda c: exact_space(c, 5 if th else 4), run_exact, what="all pairs of {0,1,2} signals that are not constant, exact integer oracle")
