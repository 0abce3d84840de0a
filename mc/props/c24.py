"""C24: calling conventions: names, order and defaults of the options, and the three namespaces."""
import numpy as np

from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import BACKENDS, DTYPES, NP, TORCH, call_raw, conv, fbe, torch

# the documented signatures: (first arguments, options in order with their defaults)
SIG = {
    "bss_eval_sources": (("ref", "est"), dict(filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, compute_permutation=True, load_diag=None)),
    "sdr": (("ref", "est"), dict(filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None, return_perm=False, change_sign=False)),
    "sdr_loss": (("est", "ref"), dict(filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None, pairwise=False)),
    "sdr_pit_loss": (("est", "ref"), dict(filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None)),
    "pairwise_sdr_loss": (("est", "ref"), dict(filter_length=512, use_cg_iter=None, zero_mean=False, clamp_db=None, load_diag=None)),
    "si_bss_eval_sources": (("ref", "est"), dict(zero_mean=False, clamp_db=None, compute_permutation=True, load_diag=None)),
    "si_sdr": (("ref", "est"), dict(zero_mean=False, clamp_db=None, return_perm=False, change_sign=False)),
    "si_sdr_loss": (("est", "ref"), dict(zero_mean=False, clamp_db=None, pairwise=False)),
    "si_sdr_pit_loss": (("est", "ref"), dict(zero_mean=False, clamp_db=None)),
    "pairwise_si_sdr_loss": (("est", "ref"), dict(zero_mean=False, clamp_db=None)),
    "square_cosine_metrics": (("ref", "est"), dict(filter_length=512, use_cg_iter=None, zero_mean=False, pairwise=True, load_diag=None)),
}
# a second value of each option, with a visible effect
ALT = dict(filter_length=6, use_cg_iter=3, zero_mean=True, clamp_db=7.0, compute_permutation=False, load_diag=0.3, return_perm=True, change_sign=True)
# and a third one, falsy or degenerate, that must not be taken for the default
ALT2 = dict(filter_length=1, clamp_db=0.0, load_diag=0.0)
NSONLY = ("pairwise_sdr_loss", "pairwise_si_sdr_loss", "square_cosine_metrics")


def alt(fn, o, which=1):
    if o == "pairwise":
        return not SIG[fn][1][o]
    return (ALT2 if which == 2 else ALT)[o]


def target(fn, where, b):
    return getattr(fbe if where == "top" else getattr(fbe, b), fn)


def space(c, th):
    fn = c("fn", tuple(SIG))
    opts = list(SIG[fn][1])
    where = c("namespace", ("top", "own") if fn not in NSONLY else ("own",))
    n_pos = c("positional options", tuple(range(len(opts) + 1)))
    nondefault = {o: w for o in opts for w in [c(o, (0, 1, 2) if o in ALT2 else (0, 1), dev=1)] if w}
    return dict(fn=fn, where=where, n_pos=n_pos, nondefault=nondefault, rest=c("the other options", ("omitted if default", "by keyword", "by keyword, signals too")), backend=c("backend", BACKENDS))


_DATA = {}


def scene(b, long):
    T = 640 if long else 60
    if (b, long) not in _DATA:
        ref, est = signals.scene(2, 2, T, ("c24", long), shift=1)
        est[0] += 0.35 * signals.noise(("c24", "extra"), T)
        _DATA[b, long] = conv(ref + 0.5, b, F64), conv(est - 0.25, b, F64)
    return _DATA[b, long]


_BASE = {}


def canonical(fn, kw, b):
    """The same call through the functions decided by the other properties: full keywords, all options explicit."""
    k = (fn, tuple(kw.items()), b)
    if k not in _BASE:
        ref, est = scene(b, kw.get("filter_length") == 512)
        try:
            out = getattr(getattr(fbe, b), fn)(ref=ref, est=est, **kw)
        except Exception as e:
            _BASE[k] = type(e).__name__
        else:
            _BASE[k] = [np.array(x) for x in (out if isinstance(out, tuple) else (out,))], isinstance(out, tuple)
    return _BASE[k]


def run(sc, r):
    fn, b = sc["fn"], sc["backend"]
    first, defaults = SIG[fn]
    kw = {o: (alt(fn, o, sc["nondefault"][o]) if o in sc["nondefault"] else v) for o, v in defaults.items()}
    want = canonical(fn, kw, b)
    ref, est = scene(b, kw.get("filter_length") == 512)
    named = dict(ref=ref, est=est)
    names = list(defaults)
    pos, key = [kw[o] for o in names[: sc["n_pos"]]], {o: kw[o] for o in names[sc["n_pos"]:]}
    if sc["rest"] == "omitted if default":
        key = {o: v for o, v in key.items() if o in sc["nondefault"]}
    if sc["rest"] == "by keyword, signals too":
        if pos:
            r.skipped += 1
            return
        key.update(named)
        if sc["where"] == "top":  # the first one decides the back end: only by position
            pos = [key.pop(first[0])]
    else:
        pos = [named[x] for x in first] + pos
    lab = f"{sc['where']}.{fn}/{b} {len(pos)} by position, keywords {sorted(key)}, not default: {sc['nondefault']}"
    r.calls += 1
    r.states += 1
    try:
        out = target(fn, sc["where"], b)(*pos, **key)
    except Exception as e:
        if type(e).__name__ != want:
            r.fail(lab + f": raised {type(e).__name__}: {e}")
        return
    if isinstance(want, str):
        r.fail(lab + f": succeeds, the explicit call raises {want}")
        return
    outs = [np.array(x) for x in (out if isinstance(out, tuple) else (out,))]
    if len(outs) != len(want[0]) or isinstance(out, tuple) != want[1]:
        r.fail(lab + f": {len(outs)} outputs instead of {len(want[0])}")
        return
    for q, (x, y) in enumerate(zip(outs, want[0])):
        if x.shape != y.shape or x.dtype != y.dtype:
            r.fail(lab + f": output {q} is {x.dtype}{x.shape} instead of {y.dtype}{y.shape}")
            return
        if x.dtype.kind != "f":
            if not (x == y).all():
                r.fail(lab + f": permutation {x} instead of {y}")
                return
        elif not same_db(r, x, y, ctol(F64, 100.0), lab + f": output {q}"):
            return
    r.outcome(*outs)


def default_space(c, th):
    fn = c("fn", tuple(SIG))
    opts = SIG[fn][1]
    given = {o: w for o in opts for w in [c(o, (0, 1, 2) if o in ALT2 else (0, 1), dev=1)] if w}
    if "load_diag" in given and (fn == "si_bss_eval_sources" or given.get("filter_length") == 2 and fn == "bss_eval_sources"):
        raise Skip()  # a single tap: loading only the SAR may leave no SIR to choose by (C03 and C15 decide this)
    return dict(fn=fn, backend=c("backend", BACKENDS), where=c("namespace", ("top", "own") if fn not in NSONLY else ("own",)), given=given)


def iterative(ref, est, L, kw):
    """Squared cosines by the iterative solver, from one function of the family."""
    k = (kw["use_cg_iter"], L, kw.get("zero_mean"), kw.get("load_diag"))
    if k not in _W:
        c, a = fbe.numpy.square_cosine_metrics(np.array(ref), np.array(est), filter_length=L, use_cg_iter=kw["use_cg_iter"], zero_mean=bool(kw.get("zero_mean")), load_diag=kw.get("load_diag"))
        x = 10 ** (-fbe.numpy.sdr_loss(np.array(est), np.array(ref), filter_length=L, pairwise=True, use_cg_iter=kw["use_cg_iter"], zero_mean=bool(kw.get("zero_mean")), load_diag=kw.get("load_diag")) / 10)
        _W[k] = dict(c=x / (1 + x), a=a, c2=c)
    return _W[k]


def run_default(sc, r):
    """With only the given options: against the reference model, with the documented defaults for the others."""
    fn, b = sc["fn"], sc["backend"]
    kw = {o: alt(fn, o, w) for o, w in sc["given"].items()}
    L = kw.get("filter_length", 512 if "filter_length" in SIG[fn][1] else 1)
    ref, est = scene(b, L == 512)
    named = dict(ref=ref, est=est)
    cg = "use_cg_iter" in kw and L > 1
    try:
        out = target(fn, sc["where"], b)(*[named[x] for x in SIG[fn][0]], **kw)
    except Exception as e:
        r.fail(f"{sc}: raised {type(e).__name__}: {e}")
        return
    r.calls += 1
    r.states += 1
    R, E = (np.array(x, dtype=F64) for x in (ref, est))
    if cg:  # a few iterations: not the same as the direct solver, but the same in the whole family
        model = iterative(*scene(NP, L == 512), L, kw)
    else:
        if kw.get("zero_mean"):
            R, E = R - R.mean(-1, keepdims=True), E - E.mean(-1, keepdims=True)
        model = wanted(R, E, L, kw.get("load_diag") or 0.0)
    outs = [np.array(x) for x in (out if isinstance(out, tuple) else (out,))]
    lab = f"{sc['where']}.{fn}/{b} with only {kw or 'the defaults'}"
    with np.errstate(all="ignore"):
        sdr = 10 * np.log10(model["c"] / (1 - model["c"]))
        c2 = model.get("c2", model["c"])
        sir = 10 * np.log10(c2 / (model["a"] - c2))
        sar = 10 * np.log10(model["a"] / (1 - model["a"])) * np.ones_like(sdr)
    if "clamp_db" in kw:
        sdr, sir, sar = (np.clip(x, -kw["clamp_db"], kw["clamp_db"]) for x in (sdr, sir, sar))
    base = fn.replace("si_", "").replace("pairwise_", "")
    perms = ([0, 1], [1, 0])

    def pick(M, p):
        return np.array([M[k, p[k]] for k in range(2)])

    def best(M):
        v = [pick(M, p).sum() for p in perms]
        return [p for p, x in zip(perms, v) if x >= max(v) - 1e-4]  # (clamped levels tie)

    if fn == "square_cosine_metrics":
        exp = [c2, model["a"] * np.ones_like(sdr)]
        if kw.get("pairwise") is False:
            exp = [np.diagonal(c2), np.diagonal(exp[1])]
        exps = [exp]
    elif base == "bss_eval_sources":
        if kw.get("compute_permutation") is False:
            exps = [[pick(x, [0, 1]) for x in (sdr, sir, sar)]]
        else:
            exps = [[pick(x, p) for x in (sdr, sir, sar)] + [np.array(p)] for p in best(sir)]
    elif base == "sdr":
        exps = [[pick(sdr, p) * (-1 if kw.get("change_sign") else 1)] + ([np.array(p)] if kw.get("return_perm") else []) for p in best(sdr)]
    elif base == "sdr_pit_loss":
        exps = [[-pick(sdr, p)] for p in best(sdr)]
    else:
        pair = kw.get("pairwise") or fn.startswith("pairwise")
        exps = [[-sdr if pair else -np.diagonal(sdr)]]
    atol = 1e-5
    unknown = cg and kw.get("compute_permutation", kw.get("pairwise", True)) is False  # (the iterations of the SIR and SAR start elsewhere)

    def fits(exp):
        if len(outs) != len(exp):
            return False
        for q, (x, y) in enumerate(zip(outs, exp)):
            if x.shape != y.shape:
                return False
            if unknown and base in ("bss_eval_sources", "square_cosine_metrics") and q:
                continue
            if not np.allclose(x, y, rtol=0, atol=atol):
                return False
        return True

    if not any(fits(e) for e in exps):
        r.fail(lab + f": returns {outs} instead of {exps[0]}")
        return
    r.outcome(*outs)


_W = {}


def wanted(R, E, L, load):
    """Squared cosines by normal equations in double precision on explicit shifted copies."""
    key = (R.tobytes(), E.tobytes(), L, load)
    if key not in _W:
        R, E = (x / np.linalg.norm(x, axis=-1, keepdims=True) for x in (R, E))
        T = R.shape[-1]
        A = np.zeros((2, T + L - 1, L))
        for k in range(2):
            for l in range(L):
                A[k, l : l + T, l] = R[k]
        P = np.pad(E, ((0, 0), (0, L - 1)))

        def cos(A, ld):
            b = A.T @ P.T
            return np.einsum("lm,lm->m", b, np.linalg.solve(A.T @ A + ld * np.eye(A.shape[1]), b))

        # a single tap: the SDR is in closed form, without loading
        _W[key] = dict(c=np.stack([cos(A[k], load if L > 1 else 0.0) for k in range(2)]), a=cos(np.concatenate(A, axis=1), load)[None])
    return _W[key]


def build(chk):
    th = chk.thorough
    chk.group("passing", lambda c: space(c, th), run, bound=None if th else 2, timeout=300,
              what="all functions x namespaces x number of options given by position x subsets of options that differ from the default (quick: up to two) x the rest omitted, by keyword, signals by keyword")
    chk.group("given_only", lambda c: default_space(c, th), run_default, bound=None if th else 3, timeout=300,
              what="all functions with up to three (thorough: all) options given by keyword and the others omitted, against the model with the documented defaults (512 taps); a few iterations of the iterative solver: against each other")
    chk.assume("keyword names and their order are those of the documented signatures; the top-level functions get their first signal by position")
