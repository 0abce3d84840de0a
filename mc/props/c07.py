"""C07: the two back ends compute the same thing."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..lib import DTYPES, FUNCS, NP, TORCH, call

FN = FUNCS + ("ns:pairwise_sdr_loss", "ns:pairwise_si_sdr_loss")
EXC = {"LinAlgError": "linalg", "_LinAlgError": "linalg"}


def opts(th):
    return Opts(filter_length=(4, 1, 2, 33) if th else (4, 1, 33), clamp_db=(None, 8.0, 80.0) if th else (None, 8.0), use_cg_iter=(None, 6),
                load_diag=(None, 1e-3))


def space(c, th):
    fn = c("fn", FN)
    K, M = c("KM", ((2, 2), (3, 2), (2, 3), (1, 1), (3, 3), (3, 1), (1, 3)) + (((1, 4), (4, 4), (4, 2), (2, 4)) if th else ()))
    kw = opts(th).draw(c, fn)
    if kw.get("compute_permutation") is False and K != M and c("square", (True,)):
        pass  # an error is expected from both
    if compare.mode_of(fn, kw) == "diag" and K != M and fn != "bss_eval_sources" and fn != "si_bss_eval_sources":
        from ..engine import Skip
        raise Skip()
    return dict(fn=fn, K=K, M=M, kw=kw, batch=c("batch", ((), (2, 1))), T=c("T", (60, 7) if th else (60,)))


def compare_backends(r, fn, kw, ref, est, dtype, label, K, M, tol):
    a = call(fn, NP, dtype, ref, est, **kw)
    b = call(fn, TORCH, dtype, ref, est, **kw)
    r.calls += 2
    r.states += max(1, int(np.prod(ref.shape[:-2])))
    if a.ok != b.ok:
        r.fail(f"{label}: numpy {a.excname() or 'succeeds'}, torch {b.excname() or 'succeeds'}", numpy=str(a.exc)[:200], torch=str(b.exc)[:200])
        return
    if not a.ok:
        r.add("both_raise")
        return
    if len(a.outs) != len(b.outs):
        r.fail(f"{label}: {len(a.outs)} outputs with numpy, {len(b.outs)} with torch")
        return
    nk = len(compare.kinds_of(fn))
    if len(a.outs) > nk:
        for i in np.ndindex(*ref.shape[:-2]):
            if a.outs[-1][i].tolist() != b.outs[-1][i].tolist():
                # only a tie may differ: same objective
                sk = 1 if nk == 3 else 0
                lim = 150 if dtype == F64 else 50  # beyond, the level is rounding noise
                if kw.get("use_cg_iter") and K == 1:
                    lim = 100 if dtype == F64 else 25  # ... which the iterations amplify
                if not np.allclose(np.clip(a.outs[sk][i], -lim, lim).sum(), np.clip(b.outs[sk][i], -lim, lim).sum(), rtol=0,
                                   atol=1e-6 if dtype == F64 else 1e-1):
                    r.fail(f"{label}: different permutations", numpy=a.outs[-1][i], torch=b.outs[-1][i])
                    return
                r.add("ties")
                if not kw.get("use_cg_iter") and np.isfinite(ref[i]).all() and np.isfinite(est[i]).all():
                    # each must be the metrics of its own assignment
                    cells = compare.Cells(rounded(ref[i], dtype), rounded(est[i], dtype), compare.flen(fn, kw), dtype, kw.get("zero_mean", False), compare.effective_load(fn, kw), kw.get("clamp_db"), nk == 3)
                    for be, x in ((NP, a), (TORCH, b)):
                        compare.check_item(r, cells, fn, kw, [o[i] for o in x.outs], f"{label}: {be}, permutations differ", i)
                return
    for nm, x, y in zip(compare.kinds_of(fn), a.outs, b.outs):
        if not same_db(r, x, y, tol * (4 if nm == "sir" else 1), f"{label}: {nm}"):
            return
        if dtype == F64:
            # values of ordinary level agree in decibels as well
            with np.errstate(all="ignore"):
                m = np.isfinite(x) & np.isfinite(y) & (np.abs(x) < 60)
                if m.any() and np.max(np.abs(x[m] - y[m])) > 1e-4:
                    r.fail(f"{label}: {nm} differ by {np.max(np.abs(x[m] - y[m]))} dB", numpy=x, torch=y)
                    return
        if x.dtype != y.dtype or x.shape != y.shape:
            r.fail(f"{label}: numpy returns {x.dtype}{x.shape}, torch {y.dtype}{y.shape}")
            return
    r.outcome(*a.outs)


def run(sc, r):
    ref, est = signals.batch(sc["batch"], sc["K"], sc["M"], sc["T"], "c07", letters=("offset", "ar"))
    for dtype in DTYPES:
        if sc["T"] < 10 and (sc["kw"].get("filter_length", 4) * sc["K"] > sc["T"] or dtype == "float32"):
            r.skipped += 1
            continue
        if "bss" in sc["fn"] and sc["kw"].get("filter_length", 1) * sc["K"] > 0.7 * (sc["T"] + sc["kw"].get("filter_length", 1)):
            r.skipped += 1  # dependent shifts: singular system
            continue
        tol = ctol(dtype, 60.0)
        if sc["kw"].get("use_cg_iter"):
            # the iterations amplify rounding
            tol = 5e-3 if dtype == "float32" else 1e-7
        compare_backends(r, sc["fn"], sc["kw"], ref, est, dtype, f"{sc['fn']} {sc['kw']} {dtype}", sc["K"], sc["M"], tol)
        if r.violations:
            return


HARD = ("perfect", "filtered", "silent_est", "silent_ref", "orthogonal", "nan_ref", "nan_est", "inf_est", "swapped_perfect", "one_sample", "huge", "tiny")


def hard_space(c, th):
    fn = c("fn", FN)
    kw = Opts(filter_length=(4, 1), zero_mean=(None, True), load_diag=(None, 1e-3)).draw(c, fn, exclude=("use_cg_iter",))
    return dict(fn=fn, case=c("case", HARD), kw=kw, n=c("channels", (2, 1, 3)))


def hard_scene(case, n, T=50, tag="hard"):
    ref, est = signals.scene(n, n, T, (tag, n), shift=0)
    if case == "perfect":
        est = est.copy()
        est[0] = 2 * ref[0]
    elif case == "swapped_perfect":
        est = ref[::-1] * 0.5
    elif case == "filtered":
        est[n - 1] = signals.fir(ref[n - 1], [1, 0.5])
    elif case == "silent_est":
        est[0] = 0
    elif case == "silent_ref":
        ref[0] = 0
    elif case == "orthogonal":
        ref = np.zeros((n, T))
        est = np.zeros((n, T))
        for k in range(n):
            ref[k, 6 * k] = 1.0
            est[k, 6 * k + 5] = 1.0
    elif case == "nan_ref":
        ref[n - 1, 3] = np.nan
    elif case == "nan_est":
        est[0, T - 1] = np.nan
    elif case == "inf_est":
        est[0, 5] = np.inf
    elif case == "one_sample":
        ref, est = ref[:, :1], est[:, :1]
    elif case == "huge":
        ref, est = ref * 1e12, est * 1e12
    elif case == "tiny":
        ref, est = ref * 1e-4, est * 1e-4
    return ref, est


def run_hard(sc, r):
    ref, est = hard_scene(sc["case"], sc["n"])
    for dtype in DTYPES:
        if sc["case"] == "one_sample" and sc["kw"].get("zero_mean"):
            continue
        if sc["case"] == "one_sample" and sc["n"] > 1 and "bss" in sc["fn"]:
            continue  # dependent references, singular up to rounding
        if sc["case"] == "orthogonal" and "bss" in sc["fn"]:
            continue  # neither target nor interference: the SIR is not defined
        compare_backends(r, sc["fn"], sc["kw"], ref, est, dtype, f"{sc['fn']} {sc['case']} {sc['kw']} {dtype}", sc["n"], sc["n"], ctol(dtype, 60.0))
        if r.violations:
            return


def build(chk):
    th = chk.thorough
    chk.group("options", lambda c: space(c, th), run, timeout=200,
              what="ten functions x every combination of their options x channel counts x batch shapes x precisions, numpy against torch "
                   "(iterative solver included)")
    chk.group("edge_inputs", lambda c: hard_space(c, th), run_hard,
              what="twelve edge classes of inputs (perfect, silent, orthogonal, NaN, infinite, one sample, huge, tiny) x functions x options: same "
                   "values or both raise")
