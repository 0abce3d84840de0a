"""C19: concurrent calls: exhaustive exploration of thread schedules up to a preemption bound, on the real code."""
import numpy as np

from .. import threads
from ..common import *  # noqa: F403
from ..engine import Skip
from ..iso import ChildTimeout, isolated
from ..lib import NP, TORCH, call_raw, torch
from . import c18
from .c18 import OPS, data, global_state, summary

CT = ctol
# calls used here: short signals, so that every library line is exercised at little cost
EXTRA = {
    "np.bss.c": ("bss_eval_sources", NP, F64, (2, 2, 24), "c", dict(filter_length=3)),
    "np.bss.d": ("bss_eval_sources", NP, F64, (2, 2, 24), "d", dict(filter_length=3)),
    "np.bss.e": ("bss_eval_sources", NP, F64, (2, 3, 30), "d", dict(filter_length=5, load_diag=1e-2)),
    "th.bss.c": ("bss_eval_sources", TORCH, F64, (2, 2, 24), "c", dict(filter_length=3)),
    "th.bss.d": ("bss_eval_sources", TORCH, F64, (2, 2, 24), "d", dict(filter_length=3)),
    "th.bss.e": ("bss_eval_sources", TORCH, F64, (3, 2, 30), "d", dict(filter_length=5, load_diag=1e-2, clamp_db=12.0)),
    "np.sdr.c": ("sdr", NP, F64, (2, 2, 24), "c", dict(filter_length=3, return_perm=True)),
    "th.sdr.c": ("sdr", TORCH, F64, (2, 2, 24), "c", dict(filter_length=3, return_perm=True)),
    "th.sdr.3": ("sdr", TORCH, F64, (3, 3, 24), "d", dict(filter_length=3, return_perm=True)),
    "np.cg.c": ("bss_eval_sources", NP, F64, (2, 2, 40), "c", dict(filter_length=3, use_cg_iter=1)),
    "np.cg.d": ("bss_eval_sources", NP, F64, (2, 2, 40), "d", dict(filter_length=3, use_cg_iter=1)),
    "th.cg.c": ("bss_eval_sources", TORCH, F64, (2, 2, 40), "c", dict(filter_length=3, use_cg_iter=1)),
    "th.cg.d": ("bss_eval_sources", TORCH, F64, (2, 2, 40), "d", dict(filter_length=3, use_cg_iter=1)),
    "np.si.c": ("si_bss_eval_sources", NP, F64, (2, 2, 24), "c", dict()),
    "np.si.d": ("si_bss_eval_sources", NP, F64, (2, 2, 24), "d", dict(zero_mean=True)),
    "th.si.c": ("si_bss_eval_sources", TORCH, F64, (2, 2, 24), "c", dict()),
    "th.si.d": ("si_bss_eval_sources", TORCH, F64, (2, 2, 24), "d", dict(load_diag=1e-2)),
    "np.loss.c": ("sdr_loss", NP, F64, (2, 2, 24), "c", dict(filter_length=3)),
    "np.loss.32": ("sdr_loss", NP, F32, (2, 2, 24), "d", dict(filter_length=3)),
    "th.loss.c": ("sdr_loss", TORCH, F64, (2, 2, 24), "c", dict(filter_length=3, clamp_db=20.0)),
    "th.loss.32": ("sdr_loss", TORCH, F32, (2, 2, 24), "d", dict(filter_length=3)),
    "th.grad.c": ("sdr_pit_loss", TORCH, F64, (2, 2, 24), "c", dict(filter_length=3)),
    "th.grad.d": ("si_sdr_pit_loss", TORCH, F64, (2, 2, 24), "d", dict()),
    "np.nan.c": ("sdr", NP, F64, (2, 2, 24), "nan", dict(filter_length=3)),
    "th.nan.c": ("sdr", TORCH, F64, (2, 2, 24), "nan", dict(filter_length=3)),
    "th.clash.c": ("sdr", TORCH, F64, (3, 3, 24), "clash1", dict(filter_length=3, return_perm=True)),
    "th.clash.d": ("si_sdr", TORCH, F64, (3, 3, 24), "clash2", dict(return_perm=True)),
    "th.cg.32": ("sdr_loss", TORCH, F32, (2, 2, 40), "c", dict(filter_length=3, use_cg_iter=1)),
    "th.cg.64": ("sdr_loss", TORCH, F64, (2, 2, 40), "d", dict(filter_length=3, use_cg_iter=1)),
    "th.perfect.c": ("sdr", TORCH, F64, (2, 2, 24), "perfect", dict(filter_length=3, return_perm=True)),
}
NV = 12  # variants of every call: other signals, number of samples and filter length


def shape_of(op, v):
    fn, b, dt, (K, M, T), tag, kw = EXTRA[op]
    kw = dict(kw)
    if v:
        T += v
        if "filter_length" in kw:
            kw["filter_length"] += v
            T += v
    return fn, b, dt, (K, M, T), tag, kw


def data2(op, v):
    fn, b, dt, (K, M, T), tag, kw = shape_of(op, v)
    ref, est = signals.scene(K, M, T, ("c19", tag), shift=1 if tag in ("c", "nan") else 2)
    if tag == "nan":
        est[0, 5] = np.nan
    elif tag == "perfect":
        est = 2.0 * ref[::-1].copy()
    elif tag.startswith("clash"):
        # one estimate is the best one for all the references: the assignment needs augmenting paths
        w = np.array([[0.9, 1.0, 1.1], [0.12, 0.2, 0.07], [0.2, 0.1, 0.25]])
        est = w[[0, 1, 2] if tag == "clash1" else [2, 1, 0]] @ ref + np.stack([(0.05 if (m == 0) == (tag == "clash1") and m != 1 else 0.5) * signals.noise(("clash", m, tag), T) for m in range(3)])
    return ref.astype(dt), est.astype(dt)


def prepare(op, v, share):
    fn, b, dt, shp, tag, kw = shape_of(op, v)
    key = (b, dt, shp, tag)
    if key in share:
        return share[key]
    ref, est = data2(op, v)
    if b == TORCH:
        ref, est = torch.from_numpy(ref), torch.from_numpy(est)
        if ".grad" in op:
            ref.requires_grad_(True)
            est.requires_grad_(True)
    share[key] = (ref, est)
    return ref, est


def body(op, v, share):
    ref, est = prepare(op, v, share)
    fn, b, dt, shp, tag, kw = shape_of(op, v)
    before = [x.detach().numpy().copy() if b == TORCH else x.copy() for x in (ref, est)]

    def f():
        res = call_raw(fn, b, ref, est, **dict(kw))
        s = summary(res)
        if res.ok and ".grad" in op:
            g = torch.autograd.grad(res.raw.sum(), (ref, est))
            s = (s[0], s[1] + [x.numpy().copy() for x in g])
        now = [x.detach().numpy() if b == TORCH else x for x in (ref, est)]
        if not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(now, before)):
            return ("inputs modified", "")
        return s

    return f


def child_solo(op, grain):
    return threads.count_points(body(op, 0, {}), grain)


def process_state():
    """What all the threads share and another call may depend on."""
    import random

    return (str(torch.get_default_dtype()), str(torch.get_default_device()), torch.get_num_threads(), torch.are_deterministic_algorithms_enabled(), torch.get_float32_matmul_precision(),
            torch.backends.mkldnn.enabled, torch.is_anomaly_enabled(), hash(random.getstate()), np.random.get_state()[2], np.random.get_state()[1][:4].tolist(), hash(torch.get_rng_state().numpy().tobytes()))


def child_windows(op):
    """Points of a call at which the state shared by all the threads is not what it was before the call."""
    before = process_state()
    return [i for i, v in enumerate(threads.probe_points(body(op, 0, {}), "line", process_state)) if v != before]


def child_plain(op):
    return [body(op, v, {})() for v in range(NV)]


def child_run(ops, plans, grain, timeout):
    """Runs several schedules one after the other, each on its own signals, shapes and filter length."""
    res = []
    for v, plan in plans:
        share = {}
        fs = [body(op, v, share) for op in ops]
        before = global_state()
        s = threads.Scheduler(len(ops), plan, grain)
        out = s.run(fs, timeout)
        if out is None:
            res.append((None, s.points, s.forced, {}))
            break
        after = global_state()
        d = {k: (str(before[k])[:80], str(after[k])[:80]) for k in after if after[k] != before[k] and k != "thr"}
        res.append((out, s.points, s.forced, d))
    return res


_FRESH, _N = {}, {}


def fresh(op):
    if op not in _FRESH:
        _FRESH[op] = isolated(child_plain, op)[0]
    return _FRESH[op]


def npoints(op, grain):
    k = (op, grain)
    if k not in _N:
        _N[k] = isolated(child_solo, op, grain)[0]
    return _N[k]


def same(r, got, exp, op, lab):
    if got is None:
        r.fail(lab + f": thread running {op} died")
        return False
    if got[0] != exp[0] or (got[0] == "exc" and got[1] != exp[1]):
        r.fail(lab + f": {op} gave {got[0]} {got[1] if got[0] == 'exc' else ''}, alone it gives {exp[0]} {exp[1] if exp[0] == 'exc' else ''}")
        return False
    if got[0] == "ok":
        fn, b, dt, (K, M, T), tag, kw = EXTRA[op]
        nout = len(got[1])
        for q, (x, y) in enumerate(zip(got[1], exp[1])):
            if x.dtype != y.dtype or x.shape != y.shape:
                r.fail(lab + f": output {q} of {op} is {x.dtype}{x.shape}, alone {y.dtype}{y.shape}")
                return False
            if x.dtype.kind != "f":
                if not (x == y).all():
                    r.fail(lab + f": permutation of {op} differs from the one obtained alone", got=x, alone=y)
                    return False
            elif ".grad" in op and q:
                if not np.allclose(x, y, rtol=1e-6, atol=1e-8 * (1 + np.abs(y).max())):
                    r.fail(lab + f": gradient {q} of {op} differs", got=x, alone=y)
                    return False
            elif not same_db(r, x, y, ctol(dt, 100.0), lab + f": output {q} of {op}"):
                return False
        r.outcome(*got[1])
    return True


def run(sc, r):
    ops, plan_list, grain = sc["ops"], sc["plans"], sc["grain"]
    try:
        outs, text = isolated(child_run, ops, plan_list, grain, 45.0, timeout=100)
    except ChildTimeout:
        r.fail(f"threads {ops}: schedules {plan_list} ({grain} points): no result within 100 s")
        return
    for (v, plan), (out, pts, forced, gd) in zip(plan_list, outs):
        lab = f"threads {ops} (variant {v}) schedule {plan} ({grain} points)"
        r.calls += len(ops)
        r.states += sum(pts)
        r.add("schedules")
        r.add("scheduling points passed", sum(pts))
        r.add("forced switches (holder blocked)", forced)
        if out is None:
            r.fail(lab + ": the calls never finished")
            return
        for op, got in zip(ops, out):
            if not same(r, got, fresh(op)[v], op, lab):
                return
        if gd:
            r.fail(lab + f": process-wide state changed: {str(gd)[:300]}")
            return
    if text.strip():
        r.fail(f"threads {ops}: printed output", text=text[:300])


_WIN = {}


def windows(op):
    if op not in _WIN:
        _WIN[op] = isolated(child_windows, op)[0]
    return _WIN[op]


def window_space(c):
    """Two preemptions, only where a call has altered the state shared by the threads (elsewhere a call only touches
    what it has created itself, so that the schedules commute)."""
    a = c("thread 0", tuple(EXTRA))
    if not windows(a):
        raise Skip()
    b = c("thread 1", tuple(EXTRA))
    ps = [[(0, i), (1, j), (0, None), (1, None)] for i in windows(a) for j in windows(b)][:600]
    if not ps:
        raise Skip()
    g = [[(k, p) for k, p in enumerate(ps[i:i + NV])] for i in range(0, len(ps), NV)]
    return dict(ops=(a, b), plans=c("schedules", g), grain="line")


_PLANS = {}


def plans(kind, ops, grain, size):
    """Schedules grouped by process: the k-th of a process uses the k-th variant of the calls, so that anything the
    library would remember by shape or filter length is still unknown to it."""
    key = (kind, ops, grain, size)
    if key not in _PLANS:
        n, m = npoints(ops[0], grain), npoints(ops[1], grain)
        if kind == 1:  # thread 0 runs i points, thread 1 runs to its end, thread 0 resumes
            ps = [[(0, i), (1, None), (0, None)] for i in range(n)]
        elif kind == 2:  # thread 1 is itself interrupted after j points
            ps = [[(0, i), (1, j), (0, None), (1, None)] for i in range(1, n) for j in range(1, m)]
        else:  # three threads
            ps = [[(0, i), (1, j), (2, None), (1, None), (0, None)] for i in range(1, n) for j in range(1, m)]
        _PLANS[key] = [[(k, p) for k, p in enumerate(ps[i:i + size])] for i in range(0, len(ps), size)]
    return _PLANS[key]


def space(c, kind, pairs, grain, size):
    ops = c("calls", pairs)
    return dict(ops=ops, plans=c("schedules", plans(kind, ops, grain, size)), grain=grain)


def both(pairs):
    out = []
    for a, b in pairs:
        out.append((a, b))
        if a != b:
            out.append((b, a))
    return tuple(out)


SAME = (("np.bss.c", "np.bss.d"), ("th.bss.c", "th.bss.d"), ("np.cg.c", "np.cg.d"), ("th.cg.c", "th.cg.d"), ("np.si.c", "np.si.d"), ("th.si.c", "th.si.d"))
DIFF = (("np.bss.c", "np.bss.e"), ("th.bss.c", "th.bss.e"), ("th.sdr.c", "th.sdr.3"), ("np.sdr.c", "th.sdr.c"), ("np.loss.c", "np.loss.32"), ("th.loss.c", "th.loss.32"), ("th.grad.c", "th.grad.d"),
        ("np.sdr.c", "np.nan.c"), ("th.sdr.c", "th.nan.c"), ("th.perfect.c", "th.sdr.c"), ("th.clash.c", "th.clash.d"), ("th.cg.32", "th.cg.64"), ("th.bss.c", "np.cg.c"), ("th.cg.c", "np.si.c"))
SELF = (("np.bss.c", "np.bss.c"), ("th.bss.c", "th.bss.c"), ("th.grad.c", "th.grad.c"))
TRIOS = (("np.bss.c", "np.bss.d", "np.bss.e"), ("th.sdr.c", "th.bss.c", "th.sdr.3"), ("np.cg.c", "np.bss.d", "th.cg.d"))


def build(chk):
    th = chk.thorough
    for op in EXTRA:
        fresh(op)
        for g in ("line", "call") + (("opcode",) if th else ()):
            npoints(op, g)
    pairs = both(SAME + DIFF + SELF) if th else both(SAME) + DIFF + SELF
    W = "all schedules of two threads with "
    chk.group("bound1_lines", lambda c: space(c, 1, pairs, "line", NV), run, what=W + "one preemption, at any line of the package (12 schedules per process, each on another shape)", timeout=220)
    chk.group("bound1_lines_fresh", lambda c: space(c, 1, pairs if th else (("th.loss.c", "th.loss.c"), ("np.loss.c", "np.loss.c")), "line", 1), run,
              what=W + "one preemption, at any line of the package, each in a process in which the library was never called", timeout=220)
    chk.group("bound2_calls", lambda c: space(c, 2, [q for q in pairs if not any("cg" in x for x in q)] + [("np.cg.c", "np.bss.d"), ("th.si.c", "th.cg.d")] if th else (("np.sdr.c", "np.sdr.c"), ("th.loss.c", "th.loss.c")), "call", NV), run,
              what=W + "two preemptions, at any function entry or exit of the package", timeout=220)
    n = {op: len(windows(op)) for op in EXTRA}
    chk.group("bound2_windows", window_space, run, timeout=220,
              what=W + f"two preemptions, each where a call has altered the state shared by all threads (default dtype, threads, generators...); such points found: {sum(n.values())} in {len(n)} calls run alone")
    if th:
        chk.group("bound1_opcodes", lambda c: space(c, 1, pairs, "opcode", NV), run, what=W + "one preemption at any byte code", timeout=220)
        chk.group("bound2_lines", lambda c: space(c, 2, (("np.loss.c", "np.loss.c"), ("th.loss.c", "th.loss.32"), ("np.si.c", "np.si.d"), ("th.si.c", "th.si.c")), "line", NV), run, what=W + "two preemptions at any line", timeout=220)
        chk.group("three_threads", lambda c: space(c, 3, TRIOS, "call", NV), run, what="all nested schedules of three threads with one preemption each, at any function entry or exit", timeout=220)
    chk.assume("a line (thorough: a byte code) of the package is the unit of interleaving; numpy and torch kernels called by one line are atomic here")
