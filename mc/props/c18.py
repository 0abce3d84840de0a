"""C18: calls are pure: explicit exploration of call histories, each from a fresh process."""
import gc
import importlib
import locale
import logging
import os
import random
import sys
import threading
import warnings

import numpy as np

from .. import compare, signals
from ..common import *  # noqa: F403
from ..iso import ChildTimeout, isolated
from ..lib import BACKENDS, FUNCS, NP, TORCH, Res, call_raw, fbe, is_ref_first, kwargs_for, resolve, torch

# (function, back end, precision, (K, M, T), data tag, options)
OPS = {
    "np.bss": ("bss_eval_sources", NP, F64, (2, 2, 40), "a", dict(filter_length=4)),
    "np.bss.b": ("bss_eval_sources", NP, F64, (2, 2, 40), "b", dict(filter_length=4)),
    "th.bss": ("bss_eval_sources", TORCH, F64, (2, 2, 40), "a", dict(filter_length=4)),
    "np.bss.long": ("bss_eval_sources", NP, F64, (2, 2, 40), "a", dict(filter_length=7, load_diag=1e-2)),
    "th.bss.long": ("bss_eval_sources", TORCH, F64, (2, 2, 40), "b", dict(filter_length=7, load_diag=1e-2)),
    "np.sdr": ("sdr", NP, F64, (2, 2, 40), "a", dict(filter_length=4, return_perm=True)),
    "th.sdr": ("sdr", TORCH, F64, (2, 2, 40), "b", dict(filter_length=4, return_perm=True)),
    "th.sdr.rect": ("sdr", TORCH, F64, (2, 3, 40), "a", dict(filter_length=4, return_perm=True)),
    "np.loss": ("sdr_loss", NP, F64, (2, 2, 40), "a", dict(filter_length=4)),
    "th.loss": ("sdr_loss", TORCH, F64, (2, 2, 40), "a", dict(filter_length=4, load_diag=0.1)),
    "np.loss.f32": ("sdr_loss", NP, F32, (2, 2, 40), "a", dict(filter_length=4)),
    "th.loss.f32": ("sdr_loss", TORCH, F32, (2, 2, 40), "a", dict(filter_length=4)),
    "np.cg": ("sdr_loss", NP, F64, (2, 2, 40), "a", dict(filter_length=5, use_cg_iter=10, pairwise=True)),
    "th.cg": ("bss_eval_sources", TORCH, F64, (2, 2, 40), "a", dict(filter_length=5, use_cg_iter=10)),
    "np.pit": ("sdr_pit_loss", NP, F64, (3, 3, 40), "a", dict(filter_length=4, clamp_db=9.0, zero_mean=True)),
    "th.pit": ("sdr_pit_loss", TORCH, F64, (3, 3, 40), "b", dict(filter_length=4, clamp_db=9.0, zero_mean=True)),
    "np.si": ("si_bss_eval_sources", NP, F64, (2, 2, 40), "a", dict(load_diag=1e-2)),
    "th.si": ("si_bss_eval_sources", TORCH, F64, (2, 2, 40), "b", dict()),
    "np.sisdr": ("si_sdr", NP, F64, (2, 3, 40), "a", dict(return_perm=True)),
    "th.sipit": ("si_sdr_pit_loss", TORCH, F64, (2, 2, 40), "a", dict()),
    "np.siloss": ("si_sdr_loss", NP, F64, (2, 2, 40), "b", dict(pairwise=True)),
    "np.nan": ("sdr", NP, F64, (2, 2, 40), "nan", dict(filter_length=4)),
    "th.nan": ("bss_eval_sources", TORCH, F64, (2, 2, 40), "nan", dict(filter_length=4)),
    "th.perfect": ("sdr", TORCH, F64, (2, 2, 40), "perfect", dict(filter_length=4, return_perm=True)),
    "mixed": ("sdr", "mixed", F64, (2, 2, 40), "a", dict(filter_length=4)),
    "np.singular": ("bss_eval_sources", NP, F64, (2, 2, 40), "silent", dict(filter_length=4)),
    "th.badarg": ("sdr", TORCH, F64, (2, 2, 40), "a", dict(filter_length=4, use_cg_iter="x")),
    "th.default": ("sdr_loss", TORCH, F64, (2, 2, 40), "a", dict()),
    "np.1tap": ("bss_eval_sources", NP, F64, (3, 2, 40), "b", dict(filter_length=1)),
}
CORE = ("np.bss", "th.bss", "np.bss.b", "th.sdr.rect", "np.sdr", "th.loss", "th.nan", "th.bss.long", "np.cg", "th.cg", "th.pit", "np.si", "np.loss.f32", "th.perfect")


def spec(op):
    """A call is named (table above) or given in full, options as a tuple of items."""
    return OPS[op] if isinstance(op, str) else tuple(op[:5]) + (dict(op[5]),)


def data(op):
    fn, b, dt, (K, M, T), tag, kw = spec(op)
    if ":" in tag:
        # data that differ from those of "a" in one respect only
        ref, est = signals.scene(K, M, T, ("c18", "a"), shift=1)
        ref2, est2 = signals.scene(K, M, T, ("c18", "b"), shift=2)
        kind = tag.split(":")[1]
        if kind == "middle":  # same ends, sum, norm, histogram
            ref[:, 1:-1], est[:, 1:-1] = ref[:, -2:0:-1].copy(), np.roll(est[:, 1:-1], 7, axis=-1)
        elif kind == "signs":  # same ends, same norm to the last bit
            ref[:, 1:-1:2] *= -1
            est[:, 2:-1:3] *= -1
        elif kind == "ref":
            ref = ref2
        elif kind == "est":
            est = est2
        elif kind == "sample":
            ref[0, T // 2] += 1.0
            est[-1, T // 3] -= 1.0
        elif kind == "swap":
            est = est[::-1].copy()
        elif kind == "swapref":
            ref = ref[::-1].copy()
        elif kind == "negswap":
            ref[-1], est = -ref[-1], -est[::-1]
        elif kind == "offset":
            ref, est = ref + 0.3, est - 0.2
        else:
            raise KeyError(tag)
        return ref.astype(dt), est.astype(dt)
    ref, est = signals.scene(K, M, T, ("c18", tag), shift=1 if tag == "a" else 2)
    if tag == "nan":
        est[0, 5] = np.nan
    elif tag == "perfect":
        est = 2.0 * ref[::-1].copy()
    elif tag == "silent":
        ref[1] = 0
    elif tag.startswith("clash"):
        # one estimate is the best one for all the references: the assignment needs augmenting paths
        w = np.array([[0.9, 1.0, 1.1], [0.12, 0.2, 0.07], [0.2, 0.1, 0.25]])
        est = w[[0, 1, 2] if tag == "clash1" else [2, 1, 0]] @ ref + np.stack([(0.05 if (m == 0) == (tag == "clash1") and m != 1 else 0.5) * signals.noise(("clash", m, tag), T) for m in range(3)])
    return ref.astype(dt), est.astype(dt)


def global_state():
    s = dict(
        npgeterr=dict(np.geterr()), npgeterrcall=repr(np.geterrcall()), np_rng=repr(np.random.get_state()[1][:8]) + repr(np.random.get_state()[2:]), py_rng=hash(random.getstate()),
        torch_rng=torch.get_rng_state().numpy().tobytes().hex()[:200] + str(hash(torch.get_rng_state().numpy().tobytes())), dtype=str(torch.get_default_dtype()),
        device=str(torch.get_default_device()), grad=torch.is_grad_enabled(), inference=torch.is_inference_mode_enabled(), anomaly=torch.is_anomaly_enabled(), threads=torch.get_num_threads(),
        det=torch.are_deterministic_algorithms_enabled(), matmul=torch.get_float32_matmul_precision(), tf32=torch.backends.cuda.matmul.allow_tf32, mkldnn=torch.backends.mkldnn.enabled,
        filters=repr(warnings.filters), showwarning=id(warnings.showwarning), npprint=repr(sorted(np.get_printoptions().items(), key=str)), thprint=repr(vars(torch._tensor_str.PRINT_OPTS)),
        cwd=os.getcwd(), env=hash(tuple(sorted(os.environ.items()))), rec=sys.getrecursionlimit(), path=tuple(sys.path), gc=(gc.isenabled(), gc.get_threshold()), stdout=(id(sys.stdout), id(sys.stderr)),
        loc=locale.setlocale(locale.LC_ALL), log=(logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable), thr=threading.active_count(), hooks=(id(sys.excepthook), id(sys.settrace) if sys.gettrace() else 0),
        flush=torch.tensor([1e-310], dtype=torch.float64, device="cpu").mul(1.0).item(), switch=sys.getswitchinterval(), umask=None,
    )
    return s


def set_ambient(name):
    if name == "default":
        return
    if name == "altered":
        torch.set_grad_enabled(False)
        torch.set_default_dtype(torch.float64)
        np.seterr(over="ignore", under="warn", invalid="ignore", divide="warn")
        np.random.seed(7)
        random.seed(9)
        torch.manual_seed(11)
        np.set_printoptions(precision=3)
        os.environ["C18"] = "x"
        warnings.filterwarnings("ignore", message="c18")
    elif name == "half":
        torch.set_default_dtype(torch.float16)
    elif name == "meta":
        torch.set_default_device("meta")
    elif name == "inference":
        set_ambient.cm = torch.inference_mode()
        set_ambient.cm.__enter__()
    elif name == "deterministic":
        torch.use_deterministic_algorithms(True)
    elif name == "anomaly":
        torch.autograd.set_detect_anomaly(True)
    elif name == "gc":
        gc.disable()
    elif name == "raise":
        np.seterr(over="raise", under="ignore", invalid="ignore", divide="ignore")
    elif name == "chdir":
        os.chdir("/")
    elif name == "denormal":
        torch.set_flush_denormal(True)
    elif name == "matmul":
        torch.set_float32_matmul_precision("highest")
    else:
        raise KeyError(name)


AMBIENTS = ("default", "altered", "half", "meta", "inference", "anomaly", "gc", "raise", "chdir", "denormal", "matmul")


def one(op, bufs, buffer_mode):
    """Perform one call.  Returns (Res, list of input objects, copies of the inputs before)."""
    fn, b, dt, shp, tag, kw = spec(op)
    ref, est = data(op)
    ins = []
    for role, x in (("ref", ref), ("est", est)):
        key = (role, b, dt, x.shape)
        if buffer_mode == "shared" and key in bufs:
            o = bufs[key]
            if isinstance(o, torch.Tensor):
                with torch.no_grad():
                    o.copy_(torch.from_numpy(x.copy()))
            else:
                o[...] = x
        else:
            o = torch.from_numpy(x.copy()) if b == TORCH or (b == "mixed" and role == "est") else x.copy()
            bufs[key] = o
        ins.append(o)
    res = call_raw(fn, b, ins[0], ins[1], **dict(kw))
    return res, ins, (ref, est)


def summary(res):
    return ("exc", type(res.exc).__name__) if not res.ok else ("ok", [o.copy() for o in res.outs])


def scribble(o):
    if isinstance(o, torch.Tensor):
        with torch.no_grad():
            if o.is_inference():
                return
            o.fill_(77 if not o.is_floating_point() else 1.5)
    elif isinstance(o, np.ndarray) and o.flags.writeable:
        o[...] = 77 if o.dtype.kind != "f" else 1.5


def child(seq, ambient, buffer_mode, after):
    """Executes a history; reports everything observed."""
    # numpy's and Python's own settings, not those of the harness, so that a change to them is seen
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    warnings.resetwarnings()
    warnings.filterwarnings("ignore", message="(?s).*")
    set_ambient(ambient)
    return history(seq, buffer_mode, after)


def history(seq, buffer_mode, after):
    bufs, log, problems = {}, [], []
    kept = []
    for i, op in enumerate(seq):
        before, loaded = global_state(), set(sys.modules)
        res, ins, orig = one(op, bufs, buffer_mode)
        s2 = global_state()
        if s2 != before:
            d = {k: (before[k], s2[k]) for k in s2 if s2[k] != before[k]}
            new = [m for m in sys.modules if m not in loaded and not m.startswith("fast_bss_eval")]
            problems.append((f"step {i} ({op}) changed process-wide state: {str(d)[:300]}", new))
        for o, x in zip(ins, orig):
            v = o.detach().numpy() if isinstance(o, torch.Tensor) else o
            if not np.array_equal(v, x, equal_nan=True):
                problems.append(f"step {i} ({op}) modified its input")
        log.append(summary(res))
        for j, (raws, copies) in enumerate(kept):
            for q, (x, c) in enumerate(zip(raws, copies)):
                v = x.detach().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)
                if not np.array_equal(v, c, equal_nan=True):
                    problems.append(f"step {i} ({op}) changed output {q} of the earlier step {j} ({seq[j]})")
        if after == "overwrite inputs":
            for o in ins:
                scribble(o)
        if res.ok:
            raws = res.raw if res.tuple else (res.raw,)
            for q, (x, c) in enumerate(zip(raws, res.outs)):
                v = x.detach().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)
                if not np.array_equal(v, c, equal_nan=True):
                    problems.append(f"step {i} ({op}): output {q} changed when the inputs were overwritten")
            if after == "overwrite results":
                for x in raws:
                    scribble(x)
                for o, x in zip(ins, orig):
                    v = o.detach().numpy() if isinstance(o, torch.Tensor) else o
                    if not np.array_equal(v, x, equal_nan=True):
                        problems.append(f"step {i} ({op}): overwriting the results changed the inputs")
            else:
                kept.append((raws, res.outs))
    return log, problems


_FRESH = {}


def fresh(op):
    if op not in _FRESH:
        (log, problems), text = isolated(child, (op,), "default", "fresh", "keep")
        _FRESH[op] = log[0]
    return _FRESH[op]


def space(c, ops, depth, ambients, bufs, afters):
    seq = tuple(c(f"call {i}", ops) for i in range(depth))
    return dict(seq=seq, ambient=c("ambient", ambients), buffers=c("buffers", bufs), after=c("after each call", afters))


# every way in which two consecutive calls may differ in one respect only: (option, first value, second value)
NEAR_OPTS = (("filter_length", 4, 5), ("filter_length", 1, 4), ("load_diag", 1e-2, 1.2e-2), ("load_diag", None, 1e-2), ("clamp_db", 2.0, 2.4), ("clamp_db", None, 2.0), ("use_cg_iter", 2, 3), ("use_cg_iter", None, 2),
             ("zero_mean", None, True), ("pairwise", None, True), ("compute_permutation", None, False), ("return_perm", None, True), ("change_sign", None, True))
NEAR_DATA = ("middle", "signs", "ref", "est", "sample", "swap", "swapref", "negswap")
NEAR_SHAPE = (((2, 2, 40), (2, 2, 41)), ((2, 3, 40), (3, 2, 40)), ((2, 2, 40), (3, 3, 40)), ((1, 2, 40), (2, 1, 40)), ((2, 2, 48), (2, 2, 60)))


def near(c, th):
    fn = c("fn", FUNCS + ("ns:pairwise_sdr_loss", "ns:pairwise_si_sdr_loss"))
    b = c("backend", BACKENDS)
    base = kwargs_for(fn, filter_length=4)
    opts = [("option", o) for o in NEAR_OPTS if kwargs_for(fn, **{o[0]: 1})]
    # (the permutation of one reference is a tie for the SIR)
    shapes = [("shape", x) for x in NEAR_SHAPE if not (1 in x[0][:2] and "bss" in fn) and (x[0][0] == x[0][1] or not fn.endswith(("pit_loss",)) and fn not in ("sdr_loss", "si_sdr_loss"))]
    kind, what = c("difference", opts + [("data", d) for d in NEAR_DATA] + shapes + [("dtype", None), ("backend", None)])

    def mk(shp=(2, 2, 40), tag="a", dt=F64, be=b, **kw):
        return (fn, be, dt, shp, tag, tuple(sorted(dict(base, **{k: v for k, v in kw.items() if v is not None}).items())))

    if kind == "option":
        tag = ":offset" if what[0] == "zero_mean" else "a"
        ops = mk(tag=tag, **{what[0]: what[1]}), mk(tag=tag, **{what[0]: what[2]})
    elif kind == "data":
        ops = mk(), mk(tag=":" + what)
    elif kind == "shape":
        ops = mk(shp=what[0]), mk(shp=what[1])
    elif kind == "dtype":
        ops = mk(), mk(dt=F32)
    else:
        ops = mk(), mk(be=NP if b == TORCH else TORCH)
    if c("order", (0, 1)):
        ops = ops[::-1]
    depth = c("pattern", ((0, 1), (0, 1, 0)) if not th else ((0, 1), (0, 1, 0), (0, 0, 1), (0, 1, 1, 0)))
    return dict(seq=tuple(ops[i] for i in depth), ambient="default", buffers=c("buffers", ("shared", "fresh") if th else ("shared",)), after="keep")


def preload(problems):
    """The first use of some torch functions imports modules that alter, e.g., the warning filters: that is not the
    library's doing.  Imports them here, so that the next children have them from the start."""
    new = [m for p in problems if isinstance(p, tuple) for m in p[1]]
    for m in new:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    return bool(new)


def observed(*args):
    for k in range(4):
        (log, problems), text = isolated(child, *args)
        if not preload(problems):
            break
    return (log, problems), text


def run(sc, r):
    lab = f"history {sc['seq']} ambient={sc['ambient']} buffers={sc['buffers']} then {sc['after']}"
    try:
        (log, problems), text = observed(sc["seq"], sc["ambient"], sc["buffers"], sc["after"])
    except ChildTimeout:
        r.fail(lab + ": a call did not return within 60 s")
        return
    if text.strip():
        r.fail(lab + ": printed output", text=text[:300])
        return
    judge(r, lab, sc["seq"], log, problems)


def judge(r, lab, seq, log, problems):
    """Every call of a history gives what it gives in a fresh process, and changes nothing else."""
    r.calls += len(seq)
    r.states += len(seq)
    problems = [p[0] if isinstance(p, tuple) else p for p in problems]
    if problems:
        r.fail(lab + ": " + problems[0])
        return
    want = [fresh(op) for op in seq]
    for i, (op, got, exp) in enumerate(zip(seq, log, want)):
        if got[0] != exp[0] or (got[0] == "exc" and got[1] != exp[1]):
            r.fail(lab + f": call {i} ({op}) gave {got[0]} {got[1] if got[0] == 'exc' else ''}, a fresh process gives {exp[0]} {exp[1] if exp[0] == 'exc' else ''}")
            return
        if got[0] == "ok":
            fn, b, dt, (K, M, T), tag, kw = spec(op)
            for q, (x, y) in enumerate(zip(got[1], exp[1])):
                if x.dtype != y.dtype or x.shape != y.shape:
                    r.fail(lab + f": output {q} of call {i} ({op}) is {x.dtype}{x.shape}, fresh {y.dtype}{y.shape}")
                    return
                if x.dtype.kind != "f":
                    if tag != "perfect" and not (x == y).all():
                        r.fail(lab + f": permutation of call {i} ({op}) differs from a fresh process", got=x, fresh=y)
                        return
                elif not same_db(r, x, y, ctol(dt, 100.0), lab + f": output {q} of call {i} ({op}) differs from a fresh process"):
                    return
                r.outcome(x)


INTERP = {
    "plain": {},
    "three threads": dict(OMP_NUM_THREADS="3", MKL_NUM_THREADS="3"),
    "hash seed": dict(PYTHONHASHSEED="1"),
    "optimized": dict(PYTHONOPTIMIZE="2"),
    "dev mode": dict(PYTHONDEVMODE="1", PYTHONWARNINGS="ignore"),
    "C locale": dict(LC_ALL="C", PYTHONUTF8="0"),
}
SCRIPT = """
import os, sys, pickle, warnings
sys.path.insert(0, sys.argv[1])
import numpy, torch
n = torch.get_num_threads()
import mc.props.c18 as c18
torch.set_num_threads(int(sys.argv[3]) or n)
numpy.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
warnings.resetwarnings()
warnings.filterwarnings("ignore", message="(?s).*")
with open(sys.argv[2], "rb") as h:
    seq = pickle.load(h)
out = c18.history(seq, "fresh", "keep")
with open(sys.argv[2], "wb") as h:
    pickle.dump(out, h)
"""


def interp_space(c):
    return dict(env=c("environment", tuple(INTERP), dev=1), threads=c("torch threads", (2, 5, 1, 0), dev=1), order=c("order", ("forward", "backward"), dev=1))


def run_interp(sc, r):
    """All the calls one after the other in a new interpreter that has several torch threads."""
    import pickle
    import subprocess
    import tempfile

    from ..engine import VERIF

    # (the batched LU factorization of MKL hangs for matrices of 300 rows and more with several threads)
    seq = tuple(x for x in OPS if x != "th.default")[:: 1 if sc["order"] == "forward" else -1]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x.pickle")
        with open(p, "wb") as h:
            pickle.dump(seq, h)
        env = {k: v for k, v in os.environ.items() if k not in ("OMP_NUM_THREADS", "MKL_NUM_THREADS")}
        env.update(INTERP[sc["env"]])
        q = subprocess.run([sys.executable, "-c", SCRIPT, VERIF, p, str(sc["threads"])], env=env, capture_output=True, timeout=200)
        if q.returncode:
            r.fail(f"{sc}: interpreter ended with {q.returncode}", stderr=q.stderr.decode(errors="replace")[-600:])
            return
        with open(p, "rb") as h:
            log, problems = pickle.load(h)
    if q.stdout.strip() or (q.stderr.strip() and sc["env"] != "dev mode"):
        r.fail(f"{sc}: printed output", stdout=q.stdout.decode(errors="replace")[:300], stderr=q.stderr.decode(errors="replace")[:300])
        return
    judge(r, f"interpreter {sc}", seq, log, [p for p in problems if not (isinstance(p, tuple) and p[1])])


def build(chk):
    th = chk.thorough
    names = tuple(OPS)
    chk.group("pairs", lambda c: space(c, names, 2, ("default",), ("shared", "fresh") if th else ("shared",), ("keep", "overwrite inputs", "overwrite results") if th else ("overwrite inputs",)), run,
              what=f"all ordered pairs of {len(names)} calls (failing calls included) x input buffers new or reused in place x inputs or results overwritten by the caller")
    if not th:
        chk.group("pairs_results", lambda c: space(c, CORE, 2, ("default",), ("shared", "fresh"), ("overwrite results", "keep")), run, what=f"all ordered pairs of {len(CORE)} calls x buffers x results overwritten or kept")
    chk.group("triples", lambda c: space(c, CORE if th else CORE[:8], 3, ("default", "altered") if th else ("altered",), ("shared",), ("keep",)), run,
              what="all ordered triples of calls, reusing the same input buffers, earlier results kept and compared")
    chk.group("near", lambda c: near(c, th), run,
              what="all pairs of consecutive calls (and back again) that differ in exactly one respect: one option slightly changed, other data with the same ends, sum, norm or the same references or estimates, shape, dtype, back end")
    chk.group("ambients", lambda c: space(c, names, 1, AMBIENTS + (("deterministic",) if th else ()), ("fresh",), ("keep",)), run,
              what="every call x every altered process-wide state (default dtype and device, grad mode, error modes, threads, seeds...): same result, and the state is left as it was")
    chk.group("repeated", lambda c: dict(seq=(c("call", names),) * (20 if th else 8), ambient="default", buffers=c("buffers", ("shared", "fresh")), after=c("after", ("overwrite results", "overwrite inputs", "keep"))), run,
              what="the same call repeated")
    chk.group("interpreters", interp_space, run_interp, bound=None if th else 1, timeout=260, what="all the calls in turn (both orders) in new interpreters: with 1, 2, 5 or the default number of torch threads, other hash seed, optimized, development mode, other locale")
    chk.assume("results of different processes agree up to rounding; warnings are silenced as in the rest of the harness")
