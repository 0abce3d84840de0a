"""C06: all functions of the family agree."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..lib import BACKENDS, DTYPES, NP, TORCH, call


def space(c, kms, Ls, cgs):
    K, M = c("KM", kms)
    kw = {}
    L = c("L", Ls)
    for name, alpha in (("zero_mean", (None, True)), ("clamp_db", (None, 6.0, 40)), ("load_diag", (None, 1e-2)), ("use_cg_iter", cgs)):
        v = c(name, alpha)
        if v is not None:
            kw[name] = v
    return dict(K=K, M=M, L=L, kw=kw, batch=c("batch", ((), (2,), (2, 2))), shift=c("order", (0, 1)), T=c("T", (40,)),
                backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run(sc, r):
    K, M, L, b, dt = sc["K"], sc["M"], sc["L"], sc["backend"], sc["dtype"]
    n = int(np.prod(sc["batch"]))
    items = [signals.scene(K, M, sc["T"], ("c06", i), shift=sc["shift"] * (i + 1), letters=("offset", "ar")) for i in range(n)]
    ref = np.stack([x[0] for x in items]).reshape(sc["batch"] + (K, sc["T"]))
    est = np.stack([x[1] for x in items]).reshape(sc["batch"] + (M, sc["T"]))
    tol = ctol(dt, 40.0)
    n_min = min(K, M)

    def get(fn, **kw):
        res = call(fn, b, dt, ref, est, **kw)
        r.calls += 1
        if not compare.check_structure(r, res, fn, kw, sc["batch"], K, M, b, dt, f"{fn} {kw}"):
            return None
        return res.outs

    r.states += n
    for si in (False, True):
        if si:
            if L != 1 or "use_cg_iter" in sc["kw"] or "load_diag" in sc["kw"]:
                continue
        pre = "si_" if si else ""
        kw = {k: v for k, v in sc["kw"].items()}
        kl = dict(kw) if si else dict(kw, filter_length=L)
        P = get(pre + "sdr_loss", pairwise=True, **kl)
        P2 = get(f"ns:pairwise_{pre}sdr_loss", **kl)
        if P is None or P2 is None:
            return
        P = P[0]
        lab = f"{pre}* L={L} {kw} {b} {dt}"
        if not same_db(r, P, P2[0], tol, lab + ": pairwise_sdr_loss vs sdr_loss(pairwise=True)"):
            return
        if K == M:
            D = get(pre + "sdr_loss", **kl)
            D2 = get(pre + "sdr_loss", pairwise=False, **kl)
            if D is None or D2 is None:
                return
            diag = np.diagonal(P, axis1=-2, axis2=-1)
            if not same_db(r, D[0], diag, tol, lab + ": sdr_loss vs diagonal of the pairwise loss"):
                return
            if not same_db(r, D2[0], diag, tol, lab + ": sdr_loss(pairwise=False)"):
                return
        variants = {}
        for rp in (None, False, True):
            for cs in (None, False, True):
                k2 = dict(kl)
                if rp is not None:
                    k2["return_perm"] = rp
                if cs is not None:
                    k2["change_sign"] = cs
                variants[rp, cs] = get(pre + "sdr", **k2)
                if variants[rp, cs] is None:
                    return
        base, perm = variants[True, None]
        for i in np.ndindex(*sc["batch"]):
            p = perm[i].tolist()
            if not oracle.valid_perm(p, K, M):
                r.fail(lab + ": permutation is not one-to-one", perm=p)
                return
            pr = oracle.pairs_of(p, K, M)
            if not same_db(r, base[i], [-P[i][k, m] for k, m in pr], tol, lab + ": sdr vs pairwise loss of the assigned pairs"):
                return
        for (rp, cs), o in variants.items():
            if not same_db(r, (-1 if cs else 1) * o[0], base, tol, lab + f": sdr(return_perm={rp}, change_sign={cs})"):
                return
            if rp and not np.array_equal(o[1], perm):
                r.fail(lab + ": permutation depends on change_sign", a=o[1], b=perm)
                return
        pit = get(pre + "sdr_pit_loss", **kl)
        if pit is None or not same_db(r, -pit[0], base, tol, lab + ": sdr_pit_loss vs sdr"):
            return
        # the full metric set
        bk = dict(sc["kw"]) if si else dict(kl)
        B = get(pre + "bss_eval_sources", **bk)
        B1 = get(pre + "bss_eval_sources", compute_permutation=True, **bk)
        if B is None or B1 is None:
            return
        for x, y, nm in zip(B[:3], B1[:3], ("SDR", "SIR", "SAR")):
            if not same_db(r, x, y, tol, lab + f": bss_eval_sources default vs compute_permutation=True ({nm})"):
                return
        # SDR of the assigned pairs are those of the loss (one tap: the loading only acts on the SAR)
        for i in np.ndindex(*sc["batch"]):
            pr = oracle.pairs_of(B[3][i].tolist(), K, M)
            if not same_db(r, B[0][i], [-P[i][k, m] for k, m in pr], tol, lab + ": SDR of bss_eval_sources vs pairwise loss"):
                return
        if K == M:
            N = get(pre + "bss_eval_sources", compute_permutation=False, **bk)
            if N is None:
                return
            if not same_db(r, N[0], -np.diagonal(P, axis1=-2, axis2=-1), tol, lab + ": SDR without permutation vs loss"):
                return
            # reorder the estimates by the permutation found: the diagonal metrics must be the permuted ones
            E = np.stack([est[i][B[3][i]] for i in np.ndindex(*sc["batch"])]).reshape(est.shape)
            res = call(pre + "bss_eval_sources", b, dt, ref, E, compute_permutation=False, **bk)
            r.calls += 1
            if not res.ok:
                r.fail(lab + f": raised {res.exc}")
                return
            cg = "use_cg_iter" in kw and L > 1
            for x, y, nm in zip(res.outs, B[:3], ("SDR", "SIR", "SAR")):
                # the iterative solver starts from another point without permutation (C14 bounds its error)
                if cg and nm != "SDR":
                    continue
                if not same_db(r, x, y, tol * (10 if nm == "SIR" else 1), lab + f": {nm} without permutation on reordered estimates"):
                    return
        r.outcome(P, base, perm, *B)


def build(chk):
    th = chk.thorough
    kms = ((2, 2), (1, 1), (3, 3), (2, 3), (3, 2), (1, 3), (3, 1)) + (((4, 4), (2, 4), (4, 3)) if th else ())
    chk.group("family", lambda c: space(c, kms, (1, 4, 2, 9) if th else (1, 4), (None, 3, 12) if th else (None, 5)), run, timeout=300,
              what="all shared option combinations x channel counts x batch shapes x filter lengths: every documented identity between the "
                   "ten public functions, on both back ends and precisions")
