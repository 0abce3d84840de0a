"""C16: NaN or infinite samples never become a finite metric, and never hang a call."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import BACKENDS, DTYPES, FUNCS, NP, TORCH, call, torch

FN = FUNCS + ("ns:pairwise_sdr_loss", "ns:pairwise_si_sdr_loss")
BAD = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}


def space(c, kms, Ls, npos, two, cg):
    fn = c("fn", FN)
    K, M = c("KM", kms)
    kw = Opts(filter_length=Ls, use_cg_iter=cg).draw(c, fn, dev=1, exclude=("change_sign",))
    if needs_square(fn, kw) and K != M:
        raise Skip()
    chans = [("ref", k) for k in range(K)] + [("est", m) for m in range(M)]
    places = [(ch,) for ch in chans]
    if two:
        places += list(itertools.combinations(chans, 2))
    return dict(fn=fn, K=K, M=M, kw=kw, places=c("channels", places), value=c("value", tuple(BAD)), pos=c("position", ("first", "mid", "last", "all")[:npos]), batch=c("batch", ("single", "item 1 of 3"), dev=1),
                backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def dependent(fn, kw, K, M, places):
    """One boolean mask per output: which entries are computed from one of the bad channels."""
    mode = compare.mode_of(fn, kw)
    out = []
    for kind in compare.kinds_of(fn):
        d = np.zeros((K, M), bool)
        for who, i in places:
            if who == "est":
                d[:, i] = True
            elif kind == "sdr":
                d[i, :] = True
            else:
                d[:, :] = True
        out.append(d if mode == "pairwise" else np.diagonal(d).copy())
    return out


def run(sc, r):
    fn, kw, K, M, b, dt = sc["fn"], dict(sc["kw"]), sc["K"], sc["M"], sc["backend"], sc["dtype"]
    T = 40
    batched = sc["batch"] != "single"
    ref, est = signals.batch((3,) if batched else (), K, M, T, "c16", letters=("white", "ar"))
    r0, e0 = ref.copy(), est.copy()
    sl = {"first": slice(0, 1), "mid": slice(17, 18), "last": slice(T - 1, T), "all": slice(0, T)}[sc["pos"]]
    for who, i in sc["places"]:
        x = ref if who == "ref" else est
        if batched:
            x[1, i, sl] = BAD[sc["value"]]
        else:
            x[i, sl] = BAD[sc["value"]]
    lab = f"{fn}/{b}/{dt} {kw} {sc['value']} in {sc['places']} at {sc['pos']} {sc['batch']}"
    res = call(fn, b, dt, ref, est, **kw)
    r.calls += 1
    r.states += 1
    if compare.mode_of(fn, kw) == "perm":
        if res.ok or not isinstance(res.exc, ValueError):
            r.fail(lab + f": expected ValueError, got {res.outs if res.ok else repr(res.exc)}")
        r.outcome(1)
        return
    if not res.ok:
        if not isinstance(res.exc, (ValueError, RuntimeError, ArithmeticError)):
            r.fail(lab + f": raised {res.exc!r}")
        r.add("raised")
        r.outcome(2)
        return
    if not compare.check_structure(r, res, fn, kw, (3,) if batched else (), K, M, b, dt, lab):
        return
    good = call(fn, b, dt, r0, e0, **kw)
    r.calls += 1
    if not good.ok:
        r.fail(lab + f": the call without the bad sample raised {good.exc!r}")
        return
    for kind, o, g, dep in zip(compare.kinds_of(fn), res.outs, good.outs, dependent(fn, kw, K, M, sc["places"])):
        full = np.zeros(o.shape, bool)
        if batched:
            full[1] = dep
        else:
            full = dep
        if not np.isnan(o[full]).all():
            r.fail(lab + f": {kind} computed from an invalid channel is not NaN", got=o, depends=full)
            return
        tol = ctol(dt, 100.0) if not kw.get("use_cg_iter") else 1e-4
        if not full.all() and not same_db(r, o[~full], g[~full], tol, lab + f": {kind} of unaffected outputs"):
            return
    r.outcome(*res.outs)


SCENES = ("perfect", "silent", "orthogonal", "all perfect")


def infinite_space(c, kms):
    fn = c("fn", FN)
    K, M = c("KM", kms)
    kw = Opts(filter_length=(4, 1)).draw(c, fn, dev=1, exclude=("change_sign", "use_cg_iter", "zero_mean"))
    if needs_square(fn, kw) and K != M:
        raise Skip()
    chans = [("ref", k) for k in range(K)] + [("est", m) for m in range(M)]
    return dict(fn=fn, K=K, M=M, kw=kw, places=c("channel", [(ch,) for ch in chans]), value=c("value", tuple(BAD)), scene=c("scene", SCENES), batch=c("batch", ("single", "item 1 of 3")),
                backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES))


def run_infinite(sc, r):
    """An invalid channel next to channels whose metrics are infinite."""
    fn, kw, K, M, b, dt = sc["fn"], dict(sc["kw"]), sc["K"], sc["M"], sc["backend"], sc["dtype"]
    T = 40
    batched = sc["batch"] != "single"
    ref, est = signals.batch((3,) if batched else (), K, M, T, "c16", letters=("white", "ar"))
    r1, e1 = (ref[1], est[1]) if batched else (ref, est)
    (who, i), = sc["places"]
    for m in range(M):
        if who == "est" and m == i:
            continue
        if sc["scene"] == "all perfect" or m == M - 1 - (who == "est" and i == M - 1):
            if sc["scene"] == "silent":
                e1[m] = 0
            elif sc["scene"] == "orthogonal":
                r1[:, : T // 2], e1[m] = 0, 0
                e1[m, 3] = 1.0
            else:
                e1[m] = 2.0 * r1[(m + 1) % K]
    (r1 if who == "ref" else e1)[i, 25] = BAD[sc["value"]]
    lab = f"{fn}/{b}/{dt} {kw} {sc['value']} in {sc['places']}, {sc['scene']} {sc['batch']}"
    res = call(fn, b, dt, ref, est, **kw)
    r.calls += 1
    r.states += 1
    if compare.mode_of(fn, kw) == "perm":
        if res.ok or not isinstance(res.exc, ValueError):
            r.fail(lab + f": expected ValueError, got {res.outs if res.ok else repr(res.exc)}")
        r.outcome(1)
        return
    if not res.ok:
        if not isinstance(res.exc, (ValueError, RuntimeError, ArithmeticError)):
            r.fail(lab + f": raised {res.exc!r}")
        r.add("raised")
        return
    if not compare.check_structure(r, res, fn, kw, (3,) if batched else (), K, M, b, dt, lab):
        return
    for kind, o, dep in zip(compare.kinds_of(fn), res.outs, dependent(fn, kw, K, M, sc["places"])):
        x = o[1] if batched else o
        if not np.isnan(x[dep]).all():
            r.fail(lab + f": {kind} computed from an invalid channel is not NaN", got=o, depends=dep)
            return
        if kind == "sdr" and np.isnan(x[~dep]).any() or batched and np.isnan(o[[0, 2]]).any():
            r.fail(lab + f": {kind} of unaffected outputs is NaN", got=o)
            return
    r.outcome(*res.outs)


def build(chk):
    th = chk.thorough
    kms = ((2, 2), (1, 1), (2, 3), (3, 2)) + (((3, 3),) if th else ())
    chk.group("placements", lambda c: space(c, kms, (4, 1), 4 if th else 3, True, (None, 10)), run, bound=3 if th else 1, timeout=60,
              what="functions x shapes x options (up to a number of non-default ones) x every channel and pair of channels x {nan, inf, -inf} x position x batch x back ends x precisions")
    chk.group("next_to_infinite", lambda c: infinite_space(c, ((2, 2), (3, 3), (2, 3), (3, 2))), run_infinite, bound=3 if th else 1, timeout=60,
              what="an invalid channel next to perfect, silent or orthogonal estimates (infinite scores), functions x shapes x options x channel x value x batch x back ends x precisions")
