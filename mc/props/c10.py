"""C10: clamp_db limits every metric and changes nothing else."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import BACKENDS, DTYPES, FUNCS, NP, TORCH, call

FN = FUNCS + ("ns:pairwise_sdr_loss", "ns:pairwise_si_sdr_loss")
# target level of the estimates relative to their reference, in dB: perfect to silent
LEVELS = (("perfect", "perfect"), (100.0, -40.0), (45.0, 5.0), (12.0, -3.0), ("perfect", 3.0), ("silent", "silent"), ("silent", 7.0), ("orthogonal", 20.0), (0.0, 0.0),
          ("orthogonal", "orthogonal"), (70.0, "orthogonal"))
CLAMPS = (0.0, 0.5, 3.0, 10, 30.0, 60, 69.5, 75.0, 100.0, 150, 170.0, 300.0)


def level_scene(levels, T=64, L=4):
    """Two references far apart; estimate m is reference m plus unreachable noise at the given level."""
    n = len(levels)
    ref = np.zeros((n, T))
    est = np.zeros((n, T))
    seg = T // (2 * n)
    for k in range(n):
        ref[k, 2 * k * seg: 2 * k * seg + seg // 2] = signals.noise(("c10", k), seg // 2)
        ref[k] /= np.linalg.norm(ref[k])
        other = np.zeros(T)
        other[2 * k * seg + seg + seg // 2] = 1.0  # L taps cannot reach it
        lv = levels[k]
        if lv == "perfect":
            est[k] = 2.5 * ref[k]
        elif lv == "silent":
            pass
        elif lv == "orthogonal":
            est[k] = 1.5 * other
        else:
            est[k] = ref[k] + 10 ** (-lv / 20) * other
    return ref, est


def space(c, clamps):
    fn = c("fn", FN)
    kw = Opts(filter_length=(4, 1), clamp_db=clamps).draw(c, fn, exclude=("use_cg_iter", "change_sign", "load_diag", "zero_mean"))
    return dict(fn=fn, kw=kw, levels=c("levels", LEVELS), batch=c("batched", (False, True)), sign=c("change_sign", (False, True) if fn in ("sdr", "si_sdr") else (False,)),
                backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run(sc, r):
    fn, kw, dt, b = sc["fn"], dict(sc["kw"]), sc["dtype"], sc["backend"]
    if sc["sign"]:
        kw["change_sign"] = True
    ref, est = level_scene(sc["levels"])
    if sc["batch"]:
        r2, e2 = level_scene((17.0, -8.0))
        ref, est = np.stack([r2, ref]), np.stack([e2, est])
    mode = compare.mode_of(fn, kw)
    if "bss" in fn and any(x in ("silent", "orthogonal") for x in sc["levels"]):
        # without target nor interference the SIR is not defined: with permutation this is an error
        r.skipped += 1
        return
    c = kw["clamp_db"]
    lab = f"{fn}/{b}/{dt} {kw} levels={sc['levels']}"
    res = call(fn, b, dt, ref, est, **kw)
    r.calls += 1
    r.states += 1
    bs = ref.shape[:-2]
    if not compare.check_structure(r, res, fn, kw, bs, 2, 2, b, dt, lab):
        return
    nk = len(compare.kinds_of(fn))
    for nm, o in zip(compare.kinds_of(fn), res.outs):
        if not np.isfinite(o).all() or (np.abs(o) > c * (1 + 2e-5) + 2e-5).any():
            r.fail(lab + f": {nm} outside of the range", got=o)
            return
    # same call without clamping
    k0 = {k: v for k, v in kw.items() if k != "clamp_db"}
    if mode == "perm":
        # the assignment may legitimately change with the clamping (ties): conformance with the model decides
        compare.check_call(r, res, fn, kw, rounded(ref, dt), rounded(est, dt), b, dt, lab)
        return
    un = call(fn, b, dt, ref, est, **k0)
    r.calls += 1
    if not un.ok:
        r.fail(lab + f": the unclamped call raised {un.exc}")
        return
    for nm, o, u in zip(compare.kinds_of(fn), res.outs, un.outs):
        v = np.clip(np.nan_to_num(u.astype(np.float64), nan=np.nan, posinf=1e9, neginf=-1e9), -c, c)
        if np.isnan(v).any():
            r.fail(lab + f": unclamped {nm} is NaN", got=u)
            return
        # both come from the same squared cosine: they agree to rounding, except for levels that are rounding noise
        lim = 110 if dt == F64 else 50
        m = np.abs(u) < lim
        d = np.abs(o.astype(np.float64) - v)
        tol = np.where(m, 1e-4 if dt == F64 else 0.05, 0)
        if (d[m] > tol[m] + 2e-5 * np.abs(v[m])).any():
            r.fail(lab + f": clamped {nm} is not the clipped unclamped one", clamped=o, unclamped=u)
            return
        if not same_db(r, o, v, ctol(dt, 3.0), lab + f": {nm} vs clipped"):
            return
    compare.check_call(r, res, fn, kw, rounded(ref, dt), rounded(est, dt), b, dt, lab)


def sweep_space(c, step):
    # the whole range of limits, on pairwise losses of a ladder of levels
    return dict(fn=c("fn", ("sdr_loss", "si_sdr_loss", "bss_eval_sources")), clamp_db=c("clamp_db", tuple(np.arange(0, 300, step))), L=c("L", (1, 3)),
                backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_sweep(sc, r):
    fn, dt = sc["fn"], sc["dtype"]
    if fn.startswith("si_") and sc["L"] != 1:
        r.skipped += 1
        return
    lv = ("perfect",) + tuple(np.arange(140.0, -141.0, -5.0)) + (("orthogonal", "silent") if fn != "bss_eval_sources" else ())
    n = len(lv)
    ref = np.zeros((n, 1, 12))
    est = np.zeros((n, 1, 12))
    for i, x in enumerate(lv):
        a, e = level_scene((x,), T=24, L=3)
        ref[i], est[i] = a[:, :12], np.concatenate([e[:, :6], e[:, 12:18]], -1)
    # (the noise sits 3 or more samples after the last reachable one)
    kw = {} if fn.startswith("si_") else dict(filter_length=sc["L"])
    if fn == "bss_eval_sources":
        kw["compute_permutation"] = False
    conf(r, fn, sc["backend"], dt, ref, est, clamp_db=float(sc["clamp_db"]), **kw)
    res = call(fn, sc["backend"], dt, ref, est, clamp_db=float(sc["clamp_db"]), **kw)
    r.calls += 1
    c = float(sc["clamp_db"])
    if res.ok:
        for o in res.outs:
            if not np.isfinite(o).all() or (np.abs(o) > c * (1 + 2e-5) + 2e-5).any():
                r.fail(f"{fn} clamp_db={c} {sc['backend']} {dt}: outside of the range", got=o)
                return


def build(chk):
    th = chk.thorough
    chk.group("levels", lambda c: space(c, CLAMPS), run, timeout=200,
              what="all functions x calling modes x 12 limits x 11 pairs of levels from perfect to silent x batched or not x back ends x precisions: range, "
                   "equality with the clipped unclamped value, conformance with the model")
    chk.group("limit_sweep", lambda c: sweep_space(c, 0.5 if th else 5.0), run_sweep,
              what="every limit from 0 to 300 dB against a ladder of levels from +140 to -140 dB and perfect, orthogonal, silent")
    chk.assume("limits up to 300 dB (beyond 370 dB the limit is not representable as a single precision ratio)")
