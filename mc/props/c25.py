"""C25: calls may nest, and the process may fork, at any point of a call."""
import os
import pickle
import queue
import select
import signal
import sys
import threading
import time

import numpy as np

from .. import engine
from ..common import *  # noqa: F403
from ..iso import ChildTimeout, isolated
from ..lib import NP, TORCH
from . import c18, c23
from .c23 import GRAD, do, fresh, inpkg, inputs, plain, prepare, result, snapshot, spec

PARTS = 6
NAMES = tuple(o for o in c18.OPS if o not in ("mixed", "th.badarg", "np.singular", "th.default")) + tuple(GRAD)
CLASH = tuple(("sdr", b, F64, (3, 3, 40), t, (("filter_length", 3), ("return_perm", True))) for b in (TORCH, NP) for t in ("clash1", "clash2"))
FAILING = ("np.nan", "th.nan")


class Hook:
    """Runs action() at the k-th point of the library code run by this thread (k=None: only counts)."""

    def __init__(self, k, action, grain):
        self.k, self.action, self.grain, self.n, self.where, self.value = k, action, grain, 0, None, None

    def glob(self, frame, event, arg):
        if event != "call" or not inpkg(frame.f_code):
            return None
        if self.grain == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            sys.settrace(sys.gettrace())
        return self.local

    def local(self, frame, event, arg):
        if event == self.grain:
            self.n += 1
            if self.n - 1 == self.k:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
                self.value = self.action()
        return self.local

    def run(self, f):
        sys.settrace(self.glob)
        try:
            return f()
        finally:
            sys.settrace(None)


def attempt(op, ins=None):
    """The outcome of a call."""
    ins = inputs(op) if ins is None else ins
    snap = [snapshot(x) for x in ins]
    try:
        out = do(op, ins)
    except Exception as e:
        got = ("exc", type(e).__name__)
    else:
        got = ("ok", result(op, ins, out))
    return got if [snapshot(x) for x in ins] == snap else ("exc", "input modified")


def solo(op):
    prepare()
    return attempt(op)


_SOLO, _N = {}, {}


def want(op):
    if op not in _SOLO:
        _SOLO[op] = isolated(solo, op)[0]
    return _SOLO[op]


def counted(op, grain):
    prepare()
    loaded = set(sys.modules)
    h = Hook(None, None, grain)
    h.run(lambda: attempt(op))
    return h.n, [m for m in sys.modules if m not in loaded and not m.startswith("fast_bss_eval")]


def points(op, grain):
    if (op, grain) not in _N:
        for _ in range(4):
            n, new = isolated(counted, op, grain)[0]
            if not c18.preload([("", new)]):
                break
        _N[op, grain] = n
    return _N[op, grain]


def nested(op, inner, ks, grain, shared):
    """op with the calls inner made inside at the points ks (one run of op for each)."""
    prepare()
    out = []
    before = c18.global_state()
    for k in ks:
        ins = inputs(op)

        def action():
            return [(o, attempt(o, ins if shared and o == op else None)) for o in inner]

        h = Hook(k, action, grain)
        got = h.run(lambda: attempt(op, ins))
        if h.where is None:
            break
        out.append((k, h.where, [(op, got)] + h.value))
    out.append((None, "afterwards", [(op, attempt(op))]))
    if c18.global_state() != before:
        return "process-wide state is left changed", out
    return None, out


def in_child(ops, timeout):
    """Forks; the child makes the calls.  Returns their outcomes, or None when it does not end."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            sys.settrace(None)
            signal.alarm(0)
            os.close(rfd)
            with os.fdopen(wfd, "wb") as h:
                pickle.dump([(o, attempt(o)) for o in ops], h)
        finally:
            os._exit(0)
    os.close(wfd)
    data, t0 = b"", time.time()
    try:
        while True:
            ready, _, _ = select.select([rfd], [], [], max(0.0, timeout - (time.time() - t0)))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                return None
            x = os.read(rfd, 1 << 16)
            if not x:
                break
            data += x
    finally:
        os.close(rfd)
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else [(o, ("exc", "died")) for o in ops]


def forked(op, inner, ks, grain, thread, tries=3):
    """op forked at the points ks, by the calling thread or by another one; the child makes the calls inner."""
    prepare()
    out = []
    todo, reached, go = queue.SimpleQueue(), queue.SimpleQueue(), queue.SimpleQueue()

    def worker():
        # one thread for all the points: a thread of the kernels that is ending must not be forked
        while True:
            h = todo.get()
            try:
                h.got = h.run(lambda: attempt(op))
            finally:
                reached.put("end")

    def pause():
        reached.put("point")
        go.get()

    if thread:
        threading.Thread(target=worker, daemon=True).start()
    ks, again = list(ks), 0
    while ks:
        k = ks[0]
        if thread:
            h = Hook(k, pause, grain)
            h.got = ("exc", "blocked")
            todo.put(h)
            sub = None
            if reached.get() == "point":
                sub = in_child(inner, 8 if again else 20)
                go.put(None)
                try:
                    reached.get(timeout=60)
                except queue.Empty:
                    return "blocked after the process was forked", [(k, h.where, [])]
            got = h.got
        else:
            h = Hook(k, lambda: in_child(inner, 8 if again else 20), grain)
            got = h.run(lambda: attempt(op))
            sub = h.value
        if h.where is None:
            break
        if sub is None:
            again += 1  # kernels of numpy and torch may not survive a fork at a bad time: a lock of the package does it every time
            if again == tries:
                return f"a call in the forked process does not return ({tries} times)", [(k, h.where, [])]
            continue
        ks, again = ks[1:], 0
        out.append((k, h.where, [(op, got)] + sub))
    out.append((None, "afterwards", [(op, attempt(op))]))
    return None, out


def twin(op):
    """The same call on other signals."""
    fn, b, dt, shp, tag, kw = spec(op)
    return (fn, b, dt, shp, {"b": "a", "clash1": "clash2", "clash2": "clash1"}.get(tag, "b"), tuple(kw.items()))


def others(op):
    b = spec(op)[1]
    o = {"np.bss": "np.bss.b", "np.sdr": "np.bss.b", "np.cg": "np.bss"}.get(op, "np.sdr" if b == NP else ("th.sdr" if op != "th.sdr" else "th.bss"))
    return twin(op), o, "np.nan" if b == NP else "th.nan", "th.loss" if b == NP else "np.loss"


def space(c, how, ops, grain, chain):
    op = c("call", ops)
    inner = c("inside", ("itself", "others"))
    return dict(op=op, how=how, inner=inner, part=c("part", tuple(range(PARTS))), grain=grain, chain=chain)


def equal(r, o, g, w, lab, **info):
    """Is the outcome of the call o the one of a fresh process?"""
    if g[0] != w[0] or g[0] == "exc" and g[1] != w[1]:
        r.fail(lab + f": {o} gives {g if g[0] == 'exc' else 'a result'} instead of {w if w[0] == 'exc' else 'a result'}", **info)
        return False
    if g[0] == "exc":
        return True
    for q, (x, y) in enumerate(zip(g[1], w[1])):
        if x.dtype != y.dtype or x.shape != y.shape:
            r.fail(lab + f": output {q} of {o} is {x.dtype}{x.shape} instead of {y.dtype}{y.shape}", **info)
            return False
        if q >= len(w[1]) - 2 and o in GRAD:
            if not np.allclose(x, y, rtol=1e-6, atol=1e-7 * np.abs(y).max()):
                r.fail(lab + f": gradient {q} of {o} differs", **info)
                return False
        elif x.dtype.kind != "f":
            if spec(o)[4] != "perfect" and not (x == y).all():
                r.fail(lab + f": permutation of {o} differs", **info)
                return False
        elif not same_db(r, x, y, ctol(spec(o)[2], 100.0), lab + f": output {q} of {o} differs from a fresh process"):
            return False
    return True


def run(sc, r):
    op, how, grain = sc["op"], sc["how"], sc["grain"]
    n = points(op, grain)
    ks = list(range(sc["part"], n, PARTS))
    itself = sc["inner"] == "itself"
    # gradients are not asked for inside: the outer call may be in a section without gradients
    inner = (op,) if itself and op not in GRAD else tuple(o for o in others(op))
    if itself and op in GRAD:
        r.skipped += 1
        return
    for group in [ks] if sc["chain"] else [[k] for k in ks]:
        if not group:
            continue
        lab = f"{op} with {inner} {how} at point" + (f" {group[0]}" if len(group) == 1 else f"s {group[0]}, {group[0] + PARTS}, ..., {group[-1]}") + f" of {n} ({grain})"
        try:
            if how == "nested":
                (problem, out), text = isolated(nested, op, inner, group, grain, itself, timeout=60 + len(group) // 5)
            else:
                (problem, out), text = isolated(forked, op, inner, group, grain, how == "forked by another thread", timeout=90 + len(group) // 5)
        except ChildTimeout:
            r.fail(lab + ": does not return in time")
            engine._FIRST.value = 1.0
            return
        r.states += len(out)
        r.calls += sum(len(x[2]) for x in out)
        if problem:
            r.fail(lab + ": " + problem, points=[x[:2] for x in out][-3:])
            return
        if text.strip():
            r.fail(lab + ": printed output", text=text[:300])
            return
        for k, where, gots in out:
            for o, g in gots:
                if not equal(r, o, g, want(o), lab + f", point {k} ({where})"):
                    return
        r.outcome(str(op), how, tuple(group))


def build(chk):
    th = chk.thorough
    names = NAMES + (CLASH if th else CLASH[:2])
    for op in names:
        want(op)
        points(op, "line")
    core = ("np.bss", "th.bss", "np.cg", "th.cg", "np.pit", "th.grad.pit")
    chk.group("nested", lambda c: space(c, "nested", names, "line", True), run, timeout=400,
              what="every call with other calls (itself on the same arrays; another one, a failing one, one of the other back end) made inside, at every line of the package it executes (six processes for all the lines)")
    chk.group("nested_first", lambda c: space(c, "nested", names if th else ("np.bss", "th.bss"), "line", False), run, timeout=600,
              what="the same, each in a process in which the library was never called")
    for how in ("forked", "forked by another thread"):
        chk.group(how.replace(" ", "_"), lambda c, how=how: space(c, how, names if th else core, "line", True), run, timeout=600, what=f"every call {how} at every line; the child makes other calls, the parent goes on")
    chk.group("nested_opcodes", lambda c: space(c, "nested", names if th else ("np.si", "th.sipit"), "opcode", True), run, timeout=800, what="calls nested at every byte code")
    chk.assume("the code that interrupts runs between two lines (thorough: byte codes) of the package, not inside a kernel of numpy or torch; nested calls do not ask for gradients")
