"""C23: an interrupted call leaves nothing behind: fault injection at every point of a call."""
import ast
import os
import sys
import threading
import warnings

import numpy as np

from .. import engine
from ..common import *  # noqa: F403
from ..iso import ChildTimeout, isolated
from ..lib import BACKENDS, NP, TORCH, is_ref_first, resolve, torch
from ..threads import PKG
from . import c18

GRAD = {
    "th.grad": ("bss_eval_sources", TORCH, F64, (2, 2, 40), "a", dict(filter_length=4)),
    "th.grad.sdr": ("sdr", TORCH, F64, (2, 3, 40), "b", dict(filter_length=4, return_perm=True, zero_mean=True, clamp_db=9.0)),
    "th.grad.cg": ("sdr_loss", TORCH, F64, (2, 2, 40), "a", dict(filter_length=5, use_cg_iter=6)),
    "th.grad.pit": ("sdr_pit_loss", TORCH, F64, (3, 3, 40), "b", dict(filter_length=4)),
}
FAULTS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
_EXCL = {}


def excluded_lines(path):
    """Lines at which no Python code can be robust: with and try headers (between an action and the protection that undoes
    it), handlers and finally blocks."""
    if path not in _EXCL:
        out = set()
        try:
            tree = ast.parse(open(path).read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                out.update(range(n.lineno, n.body[0].lineno))
                out.add(n.lineno)
            elif isinstance(n, ast.Try):
                out.add(n.lineno)
                for x in [s for h in n.handlers for s in h.body] + n.finalbody:
                    out.update(range(x.lineno, x.end_lineno + 1))
                out.update(h.lineno for h in n.handlers)
        _EXCL[path] = out
    return _EXCL[path]


_INPKG = {}


def inpkg(code):
    v = _INPKG.get(code)
    if v is None:
        v = _INPKG[code] = os.path.realpath(code.co_filename).startswith(PKG)
    return v


def protected(frame):
    while frame is not None:
        if inpkg(frame.f_code) and frame.f_lineno in excluded_lines(frame.f_code.co_filename):
            return True
        frame = frame.f_back
    return False


class Injector:
    """Raises exc at the k-th point of the library code run by this thread (k=None: only counts)."""

    def __init__(self, k, exc, grain):
        self.k, self.exc, self.grain, self.n, self.where = k, exc, grain, 0, None

    def point(self, frame):
        self.n += 1
        if self.n - 1 == self.k:
            self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
            raise self.exc("injected")

    def glob(self, frame, event, arg):
        if event != "call" or not inpkg(frame.f_code) or protected(frame.f_back):
            return None  # (the callers stay where they are during the call)
        if self.grain == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            sys.settrace(sys.gettrace())
        excl, grain, point = excluded_lines(frame.f_code.co_filename), self.grain, self.point

        def local(frame, event, arg):
            if event == grain and frame.f_lineno not in excl:
                point(frame)
            return local

        return local

    def run(self, f):
        sys.settrace(self.glob)
        try:
            return f()
        finally:
            sys.settrace(None)


def spec(op):
    return GRAD[op] if op in GRAD else c18.spec(op)


def inputs(op):
    fn, b, dt, shp, tag, kw = spec(op)
    K, M, T = shp
    ref, est = c18.data((fn, b, dt, shp, tag, tuple(kw.items())))
    if b == TORCH:
        ref, est = torch.from_numpy(ref.copy()), torch.from_numpy(est.copy())
        if op in GRAD:
            ref.requires_grad_(True)
            est.requires_grad_(True)
    return ref, est


def snapshot(x):
    if isinstance(x, torch.Tensor):
        return (x.detach().numpy().tobytes(), tuple(x.shape), x.requires_grad, x.grad is None, x._version, x.is_leaf)
    return (x.tobytes(), x.shape, x.flags.writeable)


def do(op, ins):
    fn, b, dt, shp, tag, kw = spec(op)
    ref, est = ins
    return resolve(fn, b)(*((ref, est) if is_ref_first(fn) else (est, ref)), **kw)


def result(op, ins, out):
    outs = [np.array(x.detach().numpy() if isinstance(x, torch.Tensor) else x) for x in (out if isinstance(out, tuple) else (out,))]
    if op in GRAD:
        tot = sum(x.sum() for x in (out if isinstance(out, tuple) else (out,)) if x.is_floating_point())
        outs += [g.numpy() for g in torch.autograd.grad(tot, ins)]
    return outs


def prepare():
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    warnings.resetwarnings()
    warnings.filterwarnings("ignore", message="(?s).*")


def plain(op):
    prepare()
    ins = inputs(op)
    return result(op, ins, do(op, ins))


def counted(op, grain):
    prepare()
    loaded = set(sys.modules)
    ins = inputs(op)
    inj = Injector(None, None, grain)
    inj.run(lambda: do(op, ins))
    return inj.n, [m for m in sys.modules if m not in loaded and not m.startswith("fast_bss_eval")]


def interrupted(op, later, ks, fault, grain):
    """Calls interrupted at the points ks one after the other, then the later calls.
    Returns (problem or None, information, results of the later calls, results of interrupted calls that recovered)."""
    prepare()
    before = c18.global_state()
    own, info = [], {}
    for k in ks:
        ins = inputs(op)
        snap = [snapshot(x) for x in ins]
        inj = Injector(k, FAULTS[fault], grain)
        exc = out = None
        same = False
        try:
            out = inj.run(lambda: do(op, ins))
        except BaseException as e:  # noqa: B902
            exc = f"{type(e).__name__}: {e}"
            same = isinstance(e, FAULTS[fault])
            e = None
        if inj.where is None:
            break  # fewer points this time
        info = dict(where=inj.where, point=k)
        if exc is None and fault == "KeyboardInterrupt":
            return "the interrupt was swallowed", info, None, None
        if exc is not None and fault == "KeyboardInterrupt" and not same:
            return f"the interrupt was replaced by {exc}", info, None, None
        after = c18.global_state()
        if after != before:
            d = {x: (before[x], after[x]) for x in after if after[x] != before[x]}
            return f"process-wide state is left changed: {str(d)[:300]}", info, None, None
        if [snapshot(x) for x in ins] != snap:
            return "an input is left modified", info, None, None
        if exc is None:  # the exception was handled
            own.append(result(op, ins, out))
    if not info:
        return None, None, None, None
    got = []
    for o in later:
        i2 = inputs(o)
        try:
            got.append(("ok", result(o, i2, do(o, i2))))
        except Exception as e:
            got.append(("exc", type(e).__name__))
    if c18.global_state() != before:
        return "a later call changes process-wide state", info, None, None
    return None, info, got, own


_PLAIN, _N = {}, {}


def fresh(op):
    if op not in _PLAIN:
        _PLAIN[op] = isolated(plain, op)[0]
    return _PLAIN[op]


def points(op, grain):
    if (op, grain) not in _N:
        for _ in range(4):
            n, new = isolated(counted, op, grain)[0]
            if not c18.preload([("", new)]):
                break
        _N[op, grain] = n
    return _N[op, grain]


def other(op):
    """Another call of the same back end that shares as much as possible with op."""
    b = spec(op)[1]
    return {"np.bss": "np.bss.b", "np.sdr": "np.bss.b", "np.cg": "np.bss"}.get(op, "np.sdr" if b == NP else ("th.sdr" if op != "th.sdr" else "th.bss"))


PARTS = 6


def space(c, ops, grain, chain, faults=tuple(FAULTS)):
    return dict(op=c("call", ops), fault=c("exception", faults), part=c("part", tuple(range(PARTS))), grain=grain, chain=chain)


def run(sc, r):
    op, fault, grain = sc["op"], sc["fault"], sc["grain"]
    want = fresh(op)
    later = (op, other(op))
    n = points(op, grain)
    ks = list(range(sc["part"], n, PARTS))
    # in increasing order: whatever lies beyond the point has never run in that process
    for group in [ks] if sc["chain"] else [[k] for k in ks]:
        lab = f"{op} interrupted by {fault} at point" + (f" {group[0]}" if len(group) == 1 else f"s {group[0]}, {group[0] + PARTS}, ..., {group[-1]}" if group else "") + f" of {n} ({grain})"
        if not group:
            continue
        try:
            (problem, info, got, own), text = isolated(interrupted, op, later, group, fault, grain, timeout=30 + len(group) // 10)
        except ChildTimeout:
            r.fail(lab + ": a later call does not return in time")
            engine._FIRST.value = 1.0
            return
        r.calls += len(group) + len(later)
        r.states += len(group)
        if problem:
            r.fail(lab + ": " + problem, **(info or {}))
            return
        if got is None:
            continue
        if text.strip():
            r.fail(lab + ": printed output", text=text[:300])
            return
        # an exception that was handled: the result must be the right one
        runs = [(o, g, fresh(o)) for o, g in zip(later, got)] + [(op, ("ok", x), want) for x in own]
        for o, g, w in runs:
            if g[0] != "ok":
                r.fail(lab + f": a later call ({o}) raises {g[1]}", **info)
                return
            for q, (x, y) in enumerate(zip(g[1], w)):
                if x.dtype != y.dtype or x.shape != y.shape:
                    r.fail(lab + f": output {q} of a later call ({o}) is {x.dtype}{x.shape} instead of {y.dtype}{y.shape}", **info)
                    return
                if q >= len(w) - 2 and o in GRAD:
                    if not np.allclose(x, y, rtol=1e-6, atol=1e-7 * np.abs(y).max()):
                        r.fail(lab + f": gradient {q} of a later call ({o}) differs", **info)
                        return
                elif x.dtype.kind != "f":
                    if spec(o)[4] != "perfect" and not (x == y).all():
                        r.fail(lab + f": permutation of a later call ({o}) differs", **info)
                        return
                elif not same_db(r, x, y, ctol(spec(o)[2], 100.0), lab + f": output {q} of a later call ({o}) differs from a fresh process"):
                    return
            r.outcome(o, tuple(group))


SINGLE = ("np.bss", "th.grad", "np.cg")


def build(chk):
    th = chk.thorough
    names = tuple(o for o in c18.OPS if o not in ("mixed", "th.badarg", "np.nan", "th.nan", "np.singular", "th.default")) + tuple(GRAD)
    for op in names:
        fresh(op)
        points(op, "line")
    kb = ("KeyboardInterrupt",)
    chk.group("lines", lambda c: space(c, names if th else SINGLE, "line", False, tuple(FAULTS) if th else kb), run, timeout=400,
              what="each call interrupted at every line of the package it executes, in a fresh process each; state, inputs and later calls compared with a fresh process")
    chk.group("line_chains", lambda c: space(c, names, "line", True), run, timeout=400,
              what="the same call interrupted again and again, each time six lines later (six processes for all the lines), by KeyboardInterrupt or MemoryError, then later calls")
    chk.group("opcode_chains", lambda c: space(c, names if th else ("np.loss", "th.loss", "np.si", "th.sipit"), "opcode", True, tuple(FAULTS) if th else kb), run, timeout=700, what="the same at every byte code")
    if th:
        chk.group("opcodes", lambda c: space(c, ("np.bss", "th.grad"), "opcode", False, kb), run, timeout=700, what="two calls interrupted at every byte code, in a fresh process each")
    chk.assume("no injection at with/try headers, in exception handlers and finally blocks, where no Python code can be robust; kernels of numpy and torch are not interrupted inside")
