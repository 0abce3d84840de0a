"""C15: load_diag is Tikhonov loading of the unit-normalized system, and makes silent references safe."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import BACKENDS, DTYPES, NP, TORCH, call
from .c14 import widen as cg_widen

LD = ("sdr_loss", "sdr", "sdr_pit_loss", "bss_eval_sources", "si_bss_eval_sources", "ns:pairwise_sdr_loss")
CLEAN = ("white", "ar", "decay")


def draw(c, kms, lams, Ls, clamps=(None,), cg=(None,), dev=0):
    fn = c("fn", LD)
    K, M = c("KM", kms)
    kw = Opts(filter_length=Ls, load_diag=lams, clamp_db=clamps, use_cg_iter=cg).draw(c, fn, dev=dev, exclude=("change_sign", "zero_mean"))
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, K=K, M=M, kw=kw)


def sweep_space(c, kms, lams, Ls):
    return dict(draw(c, kms, lams, Ls), letters=c("letters", (CLEAN, ("lowpass",))), batch=c("batch", ((), (2,))), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_sweep(sc, r):
    kw = dict(sc["kw"])
    ref, est = signals.batch(sc["batch"], sc["K"], sc["M"], 96, "c15", letters=sc["letters"])
    if not conf(r, sc["fn"], sc["backend"], sc["dtype"], ref, est, **kw):
        return
    # continuity at 0: the loaded metrics are within cond * d of the unloaded ones
    d = kw.get("load_diag")
    if d is None or d > 1e-3:
        return
    k0 = {k: v for k, v in kw.items() if k != "load_diag"}
    L = compare.flen(sc["fn"], kw)
    A = call(sc["fn"], sc["backend"], sc["dtype"], ref, est, **kw)
    B = call(sc["fn"], sc["backend"], sc["dtype"], ref, est, **k0)
    r.calls += 2
    if not (A.ok and B.ok):
        r.fail(f"{sc['fn']} {kw}: {A.exc} {B.exc}")
        return
    cond = max(compare.model(rounded(ref[i], sc["dtype"]), rounded(est[i], sc["dtype"]), L, False, None, True).cond for i in np.ndindex(*ref.shape[:-2]))
    if sc["M"] > 1 and sc["K"] == 1 and compare.mode_of(sc["fn"], kw) == "perm":
        return  # the SIR of a single reference is infinite for all estimates: the selection is a tie
    for nm, x, y in zip(compare.kinds_of(sc["fn"]), A.outs, B.outs):
        if nm == "sir" and sc["K"] == 1:
            continue
        # |d(b' G^-1 b)| <= d |G^-1 b|^2 <= d cond c, and the SIR is a ratio of two such values
        same_db(r, x, y, 4 * d * cond + ctol(sc["dtype"], cond), f"{sc['fn']}/{sc['backend']}/{sc['dtype']} {kw}: {nm} jumps when the loading is introduced")


def silent_space(c, kms, lams, Ls, clamps, cg):
    sc = draw(c, kms, lams, Ls, clamps, cg)
    K = sc["K"]
    subsets = [s for n in range(1, K + 1) for s in itertools.combinations(range(K), n)]
    sc["silent"] = c("silent references", subsets)
    sc["where"] = c("where", ("single", "one item of a batch", "all items"))
    sc["backend"], sc["dtype"] = c("backend", BACKENDS), c("dtype", DTYPES)
    return sc


def run_silent(sc, r):
    fn, kw, K, M, b, dt = sc["fn"], dict(sc["kw"]), sc["K"], sc["M"], sc["backend"], sc["dtype"]
    T = 96
    ref, est = signals.batch(() if sc["where"] == "single" else (3,), K, M, T, "c15s", letters=CLEAN)
    if sc["where"] == "single":
        ref[list(sc["silent"])] = 0
    elif sc["where"] == "all items":
        ref[:, list(sc["silent"])] = 0
    else:
        ref[1, list(sc["silent"])] = 0
    lab = f"{fn}/{b}/{dt} {kw} silent={sc['silent']} {sc['where']}"
    alive = K - len(sc["silent"])
    bss = len(compare.kinds_of(fn)) == 3
    wd = cg_widen if kw.get("use_cg_iter") else None
    if bss and compare.mode_of(fn, kw) == "perm":
        if alive == 0 or (alive == 1 and kw.get("clamp_db") is None):
            # no target at all (SIR not defined), or SIR of both infinities: reported as an error, or the exact result
            res = call(fn, b, dt, ref, est, **kw)
            r.calls += 1
            r.states += 1
            if not res.ok:
                if not isinstance(res.exc, ValueError) or isinstance(res.exc, np.linalg.LinAlgError):
                    r.fail(lab + f": raised {type(res.exc).__name__}: {res.exc}")
                r.outcome(0)
                return
            if alive == 0:
                return
    if not conf(r, fn, b, dt, ref, est, widen=wd, label=lab, **kw):
        return
    # no NaN at all unless no reference is left
    if alive:
        res = call(fn, b, dt, ref, est, **kw)
        r.calls += 1
        n = len(compare.kinds_of(fn))
        if any(np.isnan(o).any() for o in res.outs[:n]):
            r.fail(lab + ": NaN", outs=res.outs[:n])


def exact_space(c, tmax, lams):
    return dict(T=c("T", range(1, tmax + 1)), L=c("L", (2, 3, 1)), lam=c("load_diag", lams), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_exact(sc, r):
    """All pairs of {-1,0,1} signals, silent ones included."""
    T, L, lam, dt = sc["T"], sc["L"], sc["lam"], sc["dtype"]
    S = all_signals(T, (-1, 0, 1), nonzero=False)
    n = len(S)
    nr = np.sqrt((S**2.0).sum(-1))
    U = S / np.where(nr > 0, nr, 1)[:, None]
    A = oracle.shifts(U[:, None], L)  # (n, T+L-1, L)
    e = oracle.pad(U, L)
    G = np.swapaxes(A, -1, -2) @ A + (lam if L > 1 else 0.0) * np.eye(L)
    B = np.einsum("ntl,mt->nlm", A, e)
    if L == 1:
        co = B[:, 0] ** 2
        cond = np.ones(n)
    else:
        co = np.einsum("nlm,nlm->nm", B, np.linalg.solve(G, B))
        w = np.linalg.eigvalsh(G)
        cond = w[:, -1] / w[:, 0]
        cond[nr == 0] = 1.0
    t = compare.CFAC * compare.eps_of(dt) * cond[:, None]
    t = t * np.sqrt(np.clip(co, 0, 1)) + t**2
    t[nr == 0] = 0
    lo, hi = db_interval_exact(co, 1 - co, t + 1e-15 * (co > 0))
    for fn, kw in (("sdr_loss", dict(filter_length=L, pairwise=True)), ("ns:pairwise_sdr_loss", dict(filter_length=L))):
        res = call(fn, sc["backend"], dt, S, S, load_diag=lam, **kw)
        r.calls += 1
        r.states += n * n
        if not res.ok:
            r.fail(f"{fn} {kw} load_diag={lam} raised {type(res.exc).__name__}: {res.exc}")
            return
        check_bounds(r, res.outs[0], -hi, -lo, f"{fn} {kw} load_diag={lam} {sc['backend']} {dt}", lambda i: dict(ref=S[i[0]], est=S[i[1]]))
        r.outcome(res.outs[0])


def build(chk):
    th = chk.thorough
    kms = ((2, 2), (1, 1), (3, 3), (2, 3), (3, 2))
    lams = (1e-10, 1e-6, 1e-4, 1e-2, 0.3, 5.0, 0.0)
    chk.group("sweep", lambda c: sweep_space(c, kms + ((1, 2), (4, 4)) if th else kms[:1] + kms[3:], lams + ((1e-12, 1e-8, 1e-5, 1e-3, 0.1, 1, 30.0) if th else ()), (4, 1, 7, 2) if th else (4, 1)), run_sweep,
              what="functions x options x shapes x loading from 0 to 5: the definition with the loaded Gram matrix, and continuity at 0")
    chk.group("silent_references", lambda c: silent_space(c, kms, (1e-3, 1e-6, 1e-10) if th else (1e-3, 1e-10), (4, 1, 7) if th else (4, 1), (None, 20.0), (None, 10) if th else (None,)), run_silent,
              what="every non empty subset of silent references, alone, in one item of a batch or in all, x functions x options: definition (-inf SDR for the silent ones, the others as if "
                   "they were absent), no exception, no NaN")
    chk.group("exact_small", lambda c: exact_space(c, 6 if th else 4, (1e-6, 0.01, 0.5)), run_exact, what="all pairs of {-1,0,1} signals including silent ones")
    chk.assume("at least one reference is not silent for the SIR to be defined; unclamped SIR matrices with both infinities (a single non-silent reference) are reported as ValueError (C22)")
