"""C09: output contract; inputs untouched."""
import numpy as np

from .. import compare, oracle, signals
from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import BACKENDS, DTYPES, FUNCS, NP, TORCH, Res, call, call_raw, conv, torch

FN = FUNCS + ("ns:pairwise_sdr_loss", "ns:pairwise_si_sdr_loss")


def space(c, th):
    fn = c("fn", FN)
    K, M = c("KM", ((2, 2), (3, 2), (2, 3), (1, 1), (1, 2)) + (((3, 3), (2, 1)) if th else ()))
    kw = Opts(filter_length=(4, 1), use_cg_iter=(None, 2), clamp_db=(None, 10)).draw(c, fn)
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, K=K, M=M, kw=kw, batch=c("batch", ((), (2,), (1, 2), (0,)) + (((2, 1, 2),) if th else ())), order=c("order", ("kw", "positional")),
                backend=c("backend", BACKENDS))


def memory_span(x):
    if isinstance(x, torch.Tensor):
        s = x.untyped_storage()
        return (s.data_ptr(), s.data_ptr() + s.nbytes())
    b = x
    while isinstance(getattr(b, "base", None), np.ndarray):
        b = b.base
    p = b.__array_interface__["data"][0]
    return (p, p + max(b.nbytes, 0))


def overlap(a, b):
    return a[0] < b[1] and b[0] < a[1] and a[0] != a[1] and b[0] != b[1]


def run(sc, r):
    fn, K, M, kw, b = sc["fn"], sc["K"], sc["M"], sc["kw"], sc["backend"]
    ref, est = signals.batch(sc["batch"], K, M, 30, "c09", letters=("offset",))
    for dt in DTYPES:
        for lay in ("plain", "view"):
            R, E = conv(ref, b, dt), conv(est, b, dt)
            if lay == "view":  # channels and samples of a larger, interleaved recording
                def emb(x):
                    z = (np.full if b == NP else torch.full)(tuple(x.shape[:-2]) + (x.shape[-1] + 6, x.shape[-2] + 2), 7.0, dtype=x.dtype)
                    v = z[..., 3:-3, 1:-1]
                    v = v.swapaxes(-1, -2) if b == NP else v.transpose(-1, -2)
                    v[...] = x
                    return z, v

                zr, R = emb(R)
                ze, E = emb(E)
            else:
                zr, ze = R, E
            br, be = zr.tobytes() if b == NP else zr.numpy().tobytes(), ze.tobytes() if b == NP else ze.numpy().tobytes()
            res = call_raw(fn, b, R, E, **kw) if sc["order"] == "kw" else positional(fn, b, R, E, kw)
            r.calls += 1
            r.states += 1
            lab = f"{fn}/{b}/{dt} {kw} batch={sc['batch']} {lay} {sc['order']}"
            if not compare.check_structure(r, res, fn, kw, sc["batch"], K, M, b, dt, lab):
                return
            ar, ae = zr.tobytes() if b == NP else zr.numpy().tobytes(), ze.tobytes() if b == NP else ze.numpy().tobytes()
            if ar != br or ae != be:
                r.fail(lab + ": an input array was modified", which="ref" if ar != br else "est")
                return
            outs = res.raw if res.tuple else (res.raw,)
            for i, o in enumerate(outs):
                if isinstance(o, np.generic):
                    continue
                if b == TORCH and o.device != R.device:
                    r.fail(lab + f": output {i} is on {o.device}")
                    return
                for x, nm in ((zr, "ref"), (ze, "est")):
                    if overlap(memory_span(o), memory_span(x)):
                        r.fail(lab + f": output {i} shares memory with {nm}")
                        return
                if b == TORCH and o.requires_grad:
                    r.fail(lab + f": output {i} requires gradients although no input does")
                    return
            r.outcome(*res.outs)


ORDER = {
    "bss_eval_sources": "filter_length use_cg_iter zero_mean clamp_db compute_permutation load_diag",
    "sdr": "filter_length use_cg_iter zero_mean clamp_db load_diag return_perm change_sign",
    "sdr_loss": "filter_length use_cg_iter zero_mean clamp_db load_diag pairwise",
    "sdr_pit_loss": "filter_length use_cg_iter zero_mean clamp_db load_diag",
}


def positional(fn, b, R, E, kw):
    """Only the first optional argument positionally (its position is stable in all the documentation)."""
    base = fn.replace("ns:", "")
    if base not in ORDER or "filter_length" not in kw:
        return call_raw(fn, b, R, E, **kw)
    from ..lib import is_ref_first, resolve

    k = {x: y for x, y in kw.items() if x != "filter_length"}
    try:
        a = (R, E) if is_ref_first(fn) else (E, R)
        return Res(raw=resolve(fn, b)(*a, kw["filter_length"], **k))
    except Exception as e:
        return Res(exc=e)


def dtype_space(c):
    fn = c("fn", FN)
    kw = Opts(filter_length=(5, 1, 8), use_cg_iter=(None, 3), clamp_db=(None, 10)).draw(c, fn)
    return dict(fn=fn, kw=kw, default=c("default_dtype", ("float64", "float32")), dtype=c("dtype", DTYPES), grad=c("grad", (False, True)))


def run_dtype(sc, r):
    """The process wide default dtype of torch is not an argument of the call."""
    fn, kw, dt = sc["fn"], sc["kw"], sc["dtype"]
    ref, est = signals.scene(2, 2, 40, "c09d")
    R, E = conv(ref, TORCH, dt), conv(est, TORCH, dt)
    if sc["grad"]:
        R.requires_grad_(True)
        E.requires_grad_(True)
    old = torch.get_default_dtype()
    res0 = call_raw(fn, TORCH, R, E, **kw)
    try:
        torch.set_default_dtype(getattr(torch, sc["default"]))
        res = call_raw(fn, TORCH, R, E, **kw)
    finally:
        torch.set_default_dtype(old)
    r.calls += 2
    r.states += 1
    lab = f"{fn}/{dt} {kw} default dtype {sc['default']} grad={sc['grad']}"
    if compare.check_structure(r, res, fn, kw, (), 2, 2, TORCH, dt, lab) and res0.ok:
        for x, y in zip(res.outs, res0.outs):
            if not same_db(r, x, y, ctol(dt, 60.0) if not kw.get("use_cg_iter") else (1e-2 if dt == F32 else 1e-8), lab):
                return
        r.outcome(*res.outs)


def meta_space(c):
    fn = c("fn", ("sdr_loss", "bss_eval_sources", "si_sdr_loss", "si_bss_eval_sources", "ns:pairwise_sdr_loss", "ns:pairwise_si_sdr_loss"))
    K, M = c("KM", ((2, 2), (2, 3)))
    kw = Opts(filter_length=(4, 1), use_cg_iter=(None, 2), clamp_db=(None, 10), compute_permutation=(False,)).draw(c, fn)
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, kw=kw, K=K, M=M, batch=c("batch", ((), (2,))), dtype=c("dtype", DTYPES))


def run_meta(sc, r):
    """Another device than the cpu: torch's meta device runs the whole tensor program on shapes, dtypes and devices,
    and refuses to mix devices exactly as a GPU does."""
    R = torch.zeros(sc["batch"] + (sc["K"], 30), dtype=getattr(torch, sc["dtype"]), device="meta")
    E = torch.zeros(sc["batch"] + (sc["M"], 30), dtype=getattr(torch, sc["dtype"]), device="meta")
    from ..lib import is_ref_first, resolve

    f = resolve(sc["fn"], TORCH)
    r.calls += 1
    r.states += 1
    lab = f"{sc['fn']} {sc['kw']} {sc['dtype']} on the meta device"
    try:
        out = f(*((R, E) if is_ref_first(sc["fn"]) else (E, R)), **sc["kw"])
    except Exception as e:
        if isinstance(e, NotImplementedError) or "item()" in str(e):
            r.skipped += 1  # looks at values, which the meta device does not have: inconclusive
            return
        r.fail(lab + f": raised {type(e).__name__}: {str(e)[:200]}")
        return
    outs = out if isinstance(out, tuple) else (out,)
    shapes = compare.expected_shapes(sc["fn"], sc["kw"], sc["batch"], sc["K"], sc["M"])
    if len(outs) != len(shapes):
        r.fail(lab + f": {len(outs)} outputs")
        return
    for o, s in zip(outs, shapes):
        if o.device.type != "meta" or tuple(o.shape) != tuple(s) or str(o.dtype) != "torch." + sc["dtype"]:
            r.fail(lab + f": output is {o.dtype} {tuple(o.shape)} on {o.device}, expected {sc['dtype']} {s} on meta")
            return


def grad_space(c):
    fn = c("fn", FN)
    kw = Opts(filter_length=(4, 1), use_cg_iter=(None, 2), clamp_db=(None, 10)).draw(c, fn)
    return dict(fn=fn, kw=kw, which=c("requires_grad", ("both", "est", "ref")), dtype=c("dtype", DTYPES))


def run_grad(sc, r):
    ref, est = signals.scene(2, 2, 30, "c09g")
    R, E = conv(ref, TORCH, sc["dtype"]), conv(est, TORCH, sc["dtype"])
    if sc["which"] != "est":
        R.requires_grad_(True)
    if sc["which"] != "ref":
        E.requires_grad_(True)
    res = call_raw(sc["fn"], TORCH, R, E, **sc["kw"])
    r.calls += 1
    r.states += 1
    lab = f"{sc['fn']} {sc['kw']} {sc['dtype']} requires_grad={sc['which']}"
    if not compare.check_structure(r, res, sc["fn"], sc["kw"], (), 2, 2, TORCH, sc["dtype"], lab):
        return
    outs = res.raw if res.tuple else (res.raw,)
    for i, o in enumerate(outs[: len(compare.kinds_of(sc["fn"]))]):
        if not o.requires_grad:
            r.fail(lab + f": output {i} is detached from its inputs")
            return
    r.outcome(*res.outs)


def build(chk):
    th = chk.thorough
    chk.group("contract", lambda c: space(c, th), run, timeout=200,
              what="ten functions x every combination of their options x channel counts x batch shapes (empty included) x back ends x precisions x two "
                   "memory layouts: number of outputs, kind, dtype, shape, device, inputs byte-identical after the call, no shared memory")
    chk.group("default_dtype", dtype_space, run_dtype, what="torch default dtype float32 / float64 x input dtype x options")
    chk.group("device", meta_space, run_meta, what="functions without permutation on torch's meta device (no GPU is available here)")
    chk.group("grad_inputs", grad_space, run_grad, what="inputs requiring gradients: results attached to the graph, same contract")
    chk.assume("devices other than the cpu are represented by torch's meta device, for the functions that do not solve a permutation")
