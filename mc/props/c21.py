"""C21: memory layout and representation of the samples."""
import numpy as np
from numpy.lib.stride_tricks import as_strided

from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import FUNCS, NP, TORCH, call_raw, kwargs_for, torch

# ---- numpy: every function builds an array equal to x, stored differently


def n_c(x):
    return np.ascontiguousarray(x)


def n_fortran(x):
    return np.asfortranarray(x)


def n_samples_first(x):
    """(..., T, C) storage (as read from a wav file), viewed as (..., C, T)."""
    return np.ascontiguousarray(np.swapaxes(x, -1, -2)).swapaxes(-1, -2)


def n_batch_last(x):
    return np.moveaxis(np.ascontiguousarray(np.moveaxis(x, 0, -1)), -1, 0)


def n_strided(x):
    b = np.full(x.shape[:-1] + (3 * x.shape[-1],), 7, dtype=x.dtype)
    b[..., 1::3] = x
    return b[..., 1::3]


def n_reversed(x):
    return np.ascontiguousarray(x[..., ::-1])[..., ::-1]


def n_channels_reversed(x):
    return np.ascontiguousarray(x[..., ::-1, :])[..., ::-1, :]


def n_sliced(x):
    b = np.full(tuple(s + 2 for s in x.shape), -5, dtype=x.dtype)
    i = tuple(slice(1, -1) for _ in x.shape)
    b[i] = x
    return b[i]


def n_readonly(x):
    y = np.array(x)
    y.setflags(write=False)
    return y


def n_swapped(x):
    return x.astype(x.dtype.newbyteorder())


def n_unaligned(x):
    raw = np.zeros(x.nbytes + 1, dtype=np.uint8)
    y = raw[1:].view(x.dtype).reshape(x.shape)
    y[...] = x
    return y


def n_overlap(x):
    """Windows of one long signal cannot hold arbitrary data; store every channel in an object of its own base."""
    b = np.zeros((2,) + x.shape, dtype=x.dtype)
    b[1] = x
    return b[1]


def n_subclass(x):
    class Audio(np.ndarray):
        pass

    return np.array(x).view(Audio)


def n_field(x):
    """A field of a record array (interleaved left/right style storage)."""
    rec = np.zeros(x.shape, dtype=[("a", "i1"), ("v", x.dtype), ("b", "f4")])
    rec["v"] = x
    return rec["v"]


N_LAYOUTS = dict(c=n_c, fortran=n_fortran, samples_first=n_samples_first, batch_last=n_batch_last, strided=n_strided, reversed=n_reversed, channels_reversed=n_channels_reversed,
                 sliced=n_sliced, readonly=n_readonly, swapped=n_swapped, unaligned=n_unaligned, base=n_overlap, subclass=n_subclass, field=n_field)

INTS = {"int8": 100, "int16": 32767, "int32": 2**31 - 1, "int64": 2**40, "uint8": 120, "uint16": 30000, "uint32": 2**30, "float16": 200}

# ---- torch


def t_c(x):
    return torch.from_numpy(np.ascontiguousarray(x).copy())


def t_samples_first(x):
    return torch.from_numpy(np.ascontiguousarray(np.swapaxes(x, -1, -2))).transpose(-1, -2)


def t_batch_last(x):
    return torch.from_numpy(np.ascontiguousarray(np.moveaxis(x, 0, -1))).movedim(-1, 0)


def t_strided(x):
    b = torch.full(x.shape[:-1] + (2 * x.shape[-1],), 7.0, dtype=getattr(torch, str(x.dtype)), device="cpu")
    b[..., 1::2] = torch.from_numpy(x.copy())
    return b[..., 1::2]


def t_sliced(x):
    b = torch.full(tuple(s + 2 for s in x.shape), -5.0, dtype=getattr(torch, str(x.dtype)))
    i = tuple(slice(1, -1) for _ in x.shape)
    b[i] = torch.from_numpy(x.copy())
    return b[i]


def t_leaf(x):
    return t_c(x).requires_grad_(True)


def t_nonleaf(x):
    return t_c(x).requires_grad_(True) * 1


def t_neg(x):
    """A lazily negated view."""
    return torch.complex(torch.zeros_like(t_c(x)), -t_c(x)).conj().imag


def t_real(x):
    return torch.complex(t_c(x), t_c(x) + 1).real


def t_inference(x):
    with torch.inference_mode():
        return t_c(x) * 1


def t_param(x):
    return torch.nn.Parameter(t_c(x))


def t_shared(x):
    """Memory shared with a read-only numpy array."""
    y = np.array(x)
    return torch.from_numpy(y)


T_LAYOUTS = dict(c=t_c, samples_first=t_samples_first, batch_last=t_batch_last, strided=t_strided, sliced=t_sliced, leaf=t_leaf, nonleaf=t_nonleaf, neg=t_neg, real=t_real, inference=t_inference, param=t_param, shared=t_shared)

SHAPES = {"2d": (2, 2, ()), "batch": (2, 2, (2,)), "rect": (2, 3, (2,)), "tall": (3, 2, ()), "deep": (2, 2, (2, 1)), "one": (1, 1, ())}


def sig(shape, T=40, tag="c21"):
    K, M, bs = SHAPES[shape]
    return signals.batch(bs, K, M, T, (tag, shape), leak=0.3)


def check(r, fn, backend, dt, A, B, ref, est, kw, lab, dtype_out="same"):
    keep = [x.detach().clone() if backend == TORCH else np.array(x) for x in (A, B)]
    res = call_raw(fn, backend, A, B, **dict(kw))
    if res.ok and backend == NP and any(o.dtype.byteorder not in "=|" for o in res.outs):
        # the values are what counts
        res.outs = [o.astype(o.dtype.newbyteorder("=")) for o in res.outs]
        res.raw = tuple(res.outs) if res.tuple else res.outs[0]
    if not compare.check_call(r, res, fn, kw, ref, est, backend, dt, lab, dtype_out=dtype_out):
        return
    for x, y in zip((A, B), keep):
        same = torch.equal(x.detach(), y) if backend == TORCH else np.array_equal(x, y)
        if not same:
            r.fail(lab + ": input modified")


def run_layout(sc, r):
    fn, backend, dt, kw = sc["fn"], sc["backend"], sc["dtype"], sc["kw"]
    ref, est = sig(sc["shape"])
    ref, est = ref.astype(dt), est.astype(dt)
    L = N_LAYOUTS if backend == NP else T_LAYOUTS
    A, B = L[sc["ref"]](ref), L[sc["est"]](est)
    for x, y in ((A, ref), (B, est)):
        z = x.detach().resolve_neg().numpy() if backend == TORCH else np.asarray(x)
        assert np.array_equal(z, y)
    check(r, fn, backend, dt, A, B, ref.astype(F64), est.astype(F64), kw, f"{fn}/{backend}/{dt} ref {sc['ref']} est {sc['est']} {sc['shape']} {kw}")


OPT = Opts(use_cg_iter=(None,), clamp_db=(None, 8.0))


def layouts(c, backend, dts, pairs, shapes, dev):
    fn = c("function", FUNCS)
    dt = c("precision", dts)
    names = tuple(N_LAYOUTS if backend == NP else T_LAYOUTS)
    a = c("reference layout", names)
    b = c("estimate layout", names) if pairs else a
    kw = OPT.draw(c, fn, 1)
    shape = c("shape", shapes, 1)
    K, M, bs = SHAPES[shape]
    if needs_square(fn, kw) and K != M:
        raise Skip
    return dict(fn=fn, backend=backend, dtype=dt, ref=a, est=b, shape=shape, kw=kw)


def run_int(sc, r):
    """Integers (and half precision): same metrics as the same values in double precision."""
    fn, kw = sc["fn"], sc["kw"]
    ref, est = sig(sc["shape"])
    out = []
    for x, t in ((ref, sc["ref"]), (est, sc["est"])):
        if t == "float64":
            out.append((x, x))
            continue
        amp = INTS[t]
        y = np.rint(x / np.abs(x).max() * amp)
        if t.startswith("u"):
            y = y + amp
        z = y.astype(t)
        assert np.array_equal(z.astype(F64), y) or t == "float16"
        z = N_LAYOUTS[sc["layout"]](z)
        out.append((z, z.astype(F64)))
    (A, ra), (B, rb) = out
    check(r, fn, NP, F64, A, B, ra, rb, kw, f"{fn} {sc['ref']}/{sc['est']} {sc['layout']} {sc['shape']} {kw}", dtype_out=None)


def ints(c, types, th):
    fn = c("function", FUNCS)
    a = c("reference type", types)
    b = c("estimate type", types + ("float64",))
    lay = c("layout", ("c", "samples_first", "swapped", "strided", "readonly"), 1)
    kw = OPT.draw(c, fn, 1)
    shape = c("shape", ("2d", "batch", "rect", "tall"), 1)
    K, M, bs = SHAPES[shape]
    if needs_square(fn, kw) and K != M:
        raise Skip
    return dict(fn=fn, ref=a, est=b, layout=lay, kw=kw, shape=shape)


def run_broadcast(sc, r):
    """Stride-0 inputs: one signal shared by all batch items, or one reference matrix for several estimates."""
    fn, backend, dt, kw = sc["fn"], sc["backend"], sc["dtype"], sc["kw"]
    ref, est = sig("batch")
    ref, est = ref.astype(dt), est.astype(dt)
    which, how = sc["which"], sc["how"]
    n = 3

    def expand(x, real):
        if how == "stride0 batch":
            src = x[0]
            full = np.broadcast_to(src, (n,) + src.shape)
            lazy = full if backend == NP else t_c(src).expand(n, *src.shape)
        elif how == "stride0 two batch dims":
            full = np.broadcast_to(x[:1, None], (2, n) + x.shape[1:]) if False else np.broadcast_to(x[0], (2, n) + x.shape[1:])
            lazy = full if backend == NP else t_c(x[0]).expand(2, n, *x.shape[1:])
        elif how == "repeated rows":
            src = x[:, :1, :] if False else x
            full = src[[0, 1, 0]]
            lazy = full if backend == NP else t_c(src)[[0, 1, 0]]
        else:  # overlapping windows of one long recording (sliding window view)
            long = np.concatenate([x[0], x[1]], axis=-1)
            T, hop = 40, 20
            base = np.ascontiguousarray(long)
            win = as_strided(base, (n, base.shape[0], T), (hop * base.strides[1], base.strides[0], base.strides[1]), writeable=False)
            full = win.copy()
            lazy = win if backend == NP else t_c(base).unfold(-1, T, hop)[:, :n].movedim(1, 0)
        return (lazy, full) if real else ((full.copy(), full) if backend == NP else (t_c(full), full))

    A, ra = expand(ref, which in ("both", "ref"))
    B, rb = expand(est, which in ("both", "est"))
    check(r, fn, backend, dt, A, B, np.array(ra, dtype=F64), np.array(rb, dtype=F64), kw, f"{fn}/{backend}/{dt} {how} ({which}) {kw}")


def broadcast(c):
    fn = c("function", FUNCS)
    return dict(fn=fn, backend=c("back end", (NP, TORCH)), dtype=c("precision", (F64, F32)), which=c("broadcast", ("both", "ref", "est")),
                how=c("how", ("stride0 batch", "stride0 two batch dims", "repeated rows", "windows")), kw=OPT.draw(c, fn, 1))


def run_alias(sc, r):
    """References and estimates that are views of the same memory."""
    fn, backend, dt, kw = sc["fn"], sc["backend"], sc["dtype"], sc["kw"]
    ref, est = sig("2d")
    buf = np.concatenate([ref, est], axis=0).astype(dt)
    how = sc["how"]
    if how == "halves":
        f = lambda b: (b[:2], b[2:])  # noqa: E731
    elif how == "interleaved":
        f = lambda b: (b[0::2], b[1::2])  # noqa: E731
    elif how == "overlapping":
        f = lambda b: (b[0:2], b[1:3])  # noqa: E731
    elif how == "shifted":
        f = lambda b: (b[:2, :-3], b[:2, 3:])  # noqa: E731
    else:
        f = lambda b: (b[0:2], b[[1, 2]] if backend == NP else b[[1, 2]])  # noqa: E731
    b = buf.copy() if backend == NP else t_c(buf)
    A, B = f(b)
    ra, rb = f(buf.astype(F64))
    check(r, fn, backend, dt, A, B, ra, rb, kw, f"{fn}/{backend}/{dt} {how} views of one buffer {kw}")


def alias(c):
    fn = c("function", FUNCS)
    return dict(fn=fn, backend=c("back end", (NP, TORCH)), dtype=c("precision", (F64, F32)), how=c("how", ("halves", "interleaved", "shifted")), kw=OPT.draw(c, fn, 1))


def run_cg(sc, r):
    """Iterative solver: same result as for contiguous copies."""
    fn, backend, dt, kw = sc["fn"], sc["backend"], F64, sc["kw"]
    ref, est = sig(sc["shape"])
    L = N_LAYOUTS if backend == NP else T_LAYOUTS
    lab = f"{fn}/{backend} iterative, ref {sc['ref']} est {sc['est']} {sc['shape']} {kw}"
    x = call_raw(fn, backend, L[sc["ref"]](ref), L[sc["est"]](est), **dict(kw))
    y = call_raw(fn, backend, L["c"](ref), L["c"](est), **dict(kw))
    r.calls += 2
    r.states += len(ref) if ref.ndim > 2 else 1
    if not (x.ok and y.ok):
        r.fail(lab + f": {x.exc!r} / contiguous {y.exc!r}")
        return
    for q, (a, b) in enumerate(zip(x.outs, y.outs)):
        if a.dtype.kind != "f":
            if a.shape != b.shape or (a != b).any():
                r.fail(lab + ": permutations differ", a=a, b=b)
        elif not same_db(r, a, b, ctol(F64, 1e4), lab + f": output {q}"):
            return
    r.outcome(*x.outs)


def cgs(c, backend, pairs):
    fn = c("function", ("bss_eval_sources", "sdr", "sdr_loss", "sdr_pit_loss"))
    names = tuple(N_LAYOUTS if backend == NP else T_LAYOUTS)
    a = c("reference layout", names)
    b = c("estimate layout", names) if pairs else c("estimate layout", (a, "c"))
    kw = Opts(use_cg_iter=(10,), clamp_db=(None,), zero_mean=(None,), change_sign=(None,), return_perm=(True,)).draw(c, fn, 1)
    shape = c("shape", ("batch", "2d"))
    return dict(fn=fn, backend=backend, ref=a, est=b, kw=kw, shape=shape)


def build(chk):
    th = chk.thorough
    dts = (F64, F32)
    shapes = ("batch", "2d", "rect", "tall", "deep", "one")
    b = 3 if th else 2
    chk.group("numpy_layouts", lambda c: layouts(c, NP, dts, False, shapes, 1), run_layout, bound=b, what="every function x every numpy layout of both signals x one option or shape deviation")
    chk.group("torch_layouts", lambda c: layouts(c, TORCH, dts, False, shapes, 1), run_layout, bound=b, what="every function x every torch layout x one deviation")
    chk.group("numpy_layout_pairs", lambda c: layouts(c, NP, dts if th else (F64,), True, shapes, 1), run_layout, bound=1 if th else 0, what="every function x every pair of numpy layouts")
    chk.group("torch_layout_pairs", lambda c: layouts(c, TORCH, dts if th else (F64,), True, shapes, 1), run_layout, bound=1 if th else 0, what="every function x every pair of torch layouts")
    types = tuple(t for t in INTS if t != "float16")
    chk.group("integers", lambda c: ints(c, types, th), run_int, bound=3 if th else 1, what="every function x integer type of the references x of the estimates x layout or option")
    for be in (NP, TORCH):
        chk.group(f"{be}_iterative", lambda c, be=be: cgs(c, be, th), run_cg, bound=b, what="iterative solver: same result for every layout as for contiguous copies")
    chk.group("broadcast", broadcast, run_broadcast, bound=3 if th else 1, what="stride-0, repeated and overlapping-window batches")
    chk.group("shared_memory", alias, run_alias, bound=b, what="references and estimates that are views of one buffer")
