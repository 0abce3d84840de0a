"""C08: items of a batch never influence each other."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import BACKENDS, DTYPES, FUNCS, NP, TORCH, call
from .c07 import hard_scene

FN = FUNCS + ("ns:pairwise_sdr_loss", "ns:pairwise_si_sdr_loss")
ITEMS = ("plain", "plain2", "swapped", "perfect", "silent_est", "loud", "quiet", "bad", "nan", "silent_ref", "offset")
SHAPES = {1: ((1,), (1, 1)), 2: ((2,), (2, 1), (1, 2)), 3: ((3,), (1, 3)), 4: ((2, 2), (4,))}


def item(kind, K, M, T):
    s = dict(plain=0, swapped=1).get(kind, 2)
    ref, est = signals.scene(K, M, T, ("c08", kind if kind in ("plain2", "offset") else "p"), shift=s,
                             letters=("offset",) if kind == "offset" else ("white", "ar"))
    if kind == "perfect":
        est[0] = 3 * ref[K - 1]
    elif kind == "silent_est":
        est[M - 1] = 0
    elif kind == "silent_ref":
        ref[0] = 0
    elif kind == "loud":
        ref, est = ref * 1e5, est * 3e6
    elif kind == "quiet":
        ref, est = ref * 1e-3, est * 1e-4
    elif kind == "bad":
        est = np.stack([signals.noise(("c08bad", m), T) for m in range(M)])
    elif kind == "nan":
        est[0, 2] = np.nan
    return ref, est


def admissible(fn, kw, kind, K):
    mode = compare.mode_of(fn, kw)
    base = fn.replace("ns:", "")
    if kind == "nan":
        return mode != "perm"
    if kind == "silent_est" and "bss" in fn and mode == "perm":
        return False  # raises, by contract
    if kind == "silent_ref":
        if "bss" in fn and K == 1:
            return False  # no reference left: the SIR is not defined
        if "bss" in fn and mode == "perm" and not kw.get("clamp_db"):
            return False  # SIR of -inf for the silent reference: may raise, by contract, with a +inf elsewhere
        # singular systems raise for the whole batch
        if kw.get("load_diag"):
            return True
        return base in ("si_sdr", "si_sdr_loss", "si_sdr_pit_loss", "pairwise_si_sdr_loss") or (kw.get("filter_length") == 1 and "bss" not in base)
    return True


def space(c, th, nitems, dev=0):
    fn = c("fn", FN)
    K, M = c("KM", ((2, 2), (3, 2), (2, 3), (1, 1), (1, 3), (3, 1)) + (((3, 3),) if th else ()))
    kw = Opts(filter_length=(4, 1), use_cg_iter=(None, 4), load_diag=(None, 1e-3)).draw(c, fn, dev=dev, exclude=("change_sign",))
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, K=K, M=M, kw=kw, n=c("items", nitems), short=not th, backend=c("backend", BACKENDS),
                dtype=c("dtype", DTYPES if th or (K, M) == (3, 2) else DTYPES[:1]))


def compare_item(r, fn, kw, single, outs, tol, label, data, dt):
    nk = len(compare.kinds_of(fn))
    if len(single) > nk and single[-1].tolist() != outs[-1].tolist():
        sk = 1 if nk == 3 else 0
        if abs(np.clip(single[sk], -50, 50).sum() - np.clip(outs[sk], -50, 50).sum()) > 1e-1:
            r.fail(label + ": permutation differs from that of the item alone", alone=single[-1], batched=outs[-1])
            return False
        if not kw.get("use_cg_iter"):
            # another optimal assignment: everything must belong to it
            n0 = len(r.violations)
            ref, est = data
            cells = compare.Cells(rounded(ref, dt), rounded(est, dt), compare.flen(fn, kw), dt, kw.get("zero_mean", False), compare.effective_load(fn, kw), kw.get("clamp_db"), nk == 3)
            compare.check_item(r, cells, fn, kw, outs, label + " (other permutation than the item alone)", ())
            return len(r.violations) == n0
        return True
    for nm, a, b in zip(compare.kinds_of(fn), single, outs):
        if not same_db(r, a, b, tol, label + f": {nm} differs from that of the item alone"):
            return False
    return True


def run(sc, r):
    """All words of n items over the alphabet, all batch shapes for that number of items."""
    fn, K, M, kw, b, dt = sc["fn"], sc["K"], sc["M"], sc["kw"], sc["backend"], sc["dtype"]
    T = 40
    tol = ctol(dt, 60.0)
    if kw.get("use_cg_iter"):
        tol = 2e-2 if dt == F32 else 1e-7
    kinds = [k for k in ITEMS if admissible(fn, kw, k, K)]
    single = {}
    data = {}
    for k in kinds:
        data[k] = item(k, K, M, T)
        res = call(fn, b, dt, *data[k], **kw)
        r.calls += 1
        lab = f"{fn}/{b}/{dt} {kw} item {k}"
        if not compare.check_structure(r, res, fn, kw, (), K, M, b, dt, lab):
            return
        single[k] = res.outs
    words = list(itertools.product(kinds, repeat=sc["n"]))
    if sc["n"] == 3 and sc["short"]:
        words = [w for w in words if w[1] == "swapped" and w[0] != w[2]]
    elif sc["n"] == 3:
        words = [w for w in words if "plain" in w and len(set(w)) == 3]
    if sc["n"] == 4 and sc["short"]:
        words = list(itertools.permutations(("plain", "swapped", "plain2", "perfect")))
    elif sc["n"] == 4:
        words = [w for i, w in enumerate(itertools.permutations(kinds, 4)) if i % 40 == 0]
    for iw, w in enumerate(words):
        ref = np.stack([data[k][0] for k in w])
        est = np.stack([data[k][1] for k in w])
        for shp in SHAPES[sc["n"]] if iw % 11 == 1 or len(words) < 25 else SHAPES[sc["n"]][:1]:
            R, E = ref.reshape(shp + ref.shape[1:]), est.reshape(shp + est.shape[1:])
            res = call(fn, b, dt, R, E, **kw)
            r.calls += 1
            lab = f"{fn}/{b}/{dt} {kw} batch {shp} of {w}"
            if not compare.check_structure(r, res, fn, kw, shp, K, M, b, dt, lab):
                return
            for i, k in zip(np.ndindex(*shp), w):
                r.states += 1
                if not compare_item(r, fn, kw, single[k], [o[i] for o in res.outs], tol, lab + f" item {i} ({k})", data[k], dt):
                    return
    r.outcome(*[x for k in kinds for x in single[k]])


def size_space(c, sizes, deep):
    fn = c("fn", FN)
    kw = Opts(filter_length=(4, 1), use_cg_iter=(None, 4), load_diag=(None, 1e-3)).draw(c, fn, dev=1, exclude=("change_sign",))
    K, M = c("KM", ((2, 2), (3, 2), (2, 3)), 1)
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, K=K, M=M, kw=kw, shape=c("batch", tuple((n,) for n in sizes) + deep), backend=c("backend", BACKENDS), dtype=c("dtype", DTYPES, 1))


_ALONE = {}


def run_size(sc, r):
    """Batches of any size: the item kinds follow each other in an order without period."""
    fn, K, M, kw, b, dt, shp = (sc[k] for k in ("fn", "K", "M", "kw", "backend", "dtype", "shape"))
    T = 40
    tol = ctol(dt, 60.0)
    if kw.get("use_cg_iter"):
        tol = 2e-2 if dt == F32 else 1e-7
    kinds = [k for k in ITEMS if k not in ("nan", "silent_ref") and admissible(fn, kw, k, K)]
    single, data = {}, {}
    for k in kinds:
        data[k] = item(k, K, M, T)
        key = (fn, b, dt, tuple(kw.items()), K, M, k)
        if key not in _ALONE:
            res = call(fn, b, dt, *data[k], **kw)
            r.calls += 1
            if not compare.check_structure(r, res, fn, kw, (), K, M, b, dt, f"{fn} item {k}"):
                return
            _ALONE[key] = res.outs
        single[k] = _ALONE[key]
    n = int(np.prod(shp))
    w = [kinds[(i * i + i // 3) % len(kinds)] for i in range(n)]
    R = np.stack([data[k][0] for k in w]).reshape(shp + (K, T))
    E = np.stack([data[k][1] for k in w]).reshape(shp + (M, T))
    res = call(fn, b, dt, R, E, **kw)
    r.calls += 1
    lab = f"{fn}/{b}/{dt} {kw} K={K} M={M} batch {shp}"
    if not compare.check_structure(r, res, fn, kw, shp, K, M, b, dt, lab):
        return
    for i, k in zip(np.ndindex(*shp), w):
        r.states += 1
        if not compare_item(r, fn, kw, single[k], [o[i] for o in res.outs], tol, lab + f" item {i} ({k})", data[k], dt):
            return
    r.outcome(*res.outs)


SIZES = tuple(range(5, 36)) + (48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300)
DEEP = ((2, 3, 4), (5, 7), (1, 33), (33, 1), (3, 1, 2, 1, 2), (2, 2, 2, 2, 2), (1, 1, 1, 1, 1, 1, 3))


def build(chk):
    th = chk.thorough
    chk.group("sizes", lambda c: size_space(c, SIZES + (511, 512, 513, 1023, 1024, 1025, 2000) if th else SIZES, DEEP), run_size, bound=2 if th else 1, timeout=300,
              what="batch sizes up to 300 (thorough: 2000) and batches of up to seven dimensions, items of nine kinds in turn x functions x one (thorough: two) deviations from the default options, shape and precision")
    chk.group("words", lambda c: space(c, th, (2, 1, 3, 4) if th else (2, 1), dev=0 if th else 1), run, bound=None if th else 2, timeout=600,
              what="all batches of up to 2 (thorough: also 3 and 4) items over an alphabet of 11 item kinds (other assignments, perfect, silent, loud, quiet, "
                   "unrelated, NaN, silent reference, offset), all batch shapes, ten functions x options (quick: at most two not at their default) x back ends x precisions, against the item alone")
    if not th:
        chk.group("triples", lambda c: space(c, th, (3,), dev=1), run, bound=1, timeout=600, what="all words x, other assignment, y of three items; at most one non-default option")
        chk.group("grids", lambda c: space(c, th, (4,), dev=1), run, bound=1, timeout=600, what="all arrangements of four items with different assignments in a 2 x 2 grid and in a row; at most one non-default option")
    chk.assume("a batch with an item for which the function raises by contract (NaN with permutation, singular system) raises for the whole batch; "
               "such items are only used where the function does not raise")
