"""C17: gradients are those of the metric."""
import numpy as np

from .. import compare, grad, oracle, signals
from ..common import *  # noqa: F403
from ..engine import Skip
from ..lib import DTYPES, FUNCS, TORCH, fbe, is_ref_first, resolve, torch

FN = FUNCS + ("ns:pairwise_sdr_loss", "ns:pairwise_si_sdr_loss")


def forward(fn, ref, est, kw):
    f = resolve(fn, TORCH)
    return f(*((ref, est) if is_ref_first(fn) else (est, ref)), **kw)


def space(c, kms, Ls, clamps, lams, cg, batches):
    fn = c("fn", FN)
    K, M = c("KM", kms, dev=1)
    kw = Opts(filter_length=Ls, clamp_db=clamps, load_diag=lams, use_cg_iter=cg).draw(c, fn, dev=1)
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, K=K, M=M, kw=kw, batch=c("batch", batches, dev=1), wants=c("requires_grad", ("both", "ref", "est"), dev=1), leaf=c("leaf", (True, False), dev=1),
                layout=c("layout", ("contiguous", "strided"), dev=1), letters=c("letters", (("white", "ar"), ("loud", "quiet"), ("offset",)), dev=1), dtype=c("dtype", DTYPES))


def weights(n):
    return np.array([0.3, -1.1, 0.7, 0.45, -0.6, 1.3, 0.2, -0.9, 0.8, 1.05, -0.35, 0.5])[np.arange(n) % 12]


def terms_of(fn, kw, K, M, perm):
    """[(kind index, output position, ref, est)] for one item."""
    mode = compare.mode_of(fn, kw)
    if mode == "perm":
        pairs = oracle.pairs_of(perm, K, M)
    elif mode == "diag":
        pairs = [(k, k) for k in range(K)]
    else:
        pairs = [(k, m) for k in range(K) for m in range(M)]
    return pairs


def find_perm(fn, kw, ref, est, dtype):
    """The assignment of one item, from the reference model."""
    kinds = compare.kinds_of(fn)
    m = oracle.Model(ref, est, compare.flen(fn, kw), kw.get("zero_mean", False), kw.get("load_diag"), len(kinds) == 3)
    s = m.mats()["sir" if len(kinds) == 3 else "sdr"] if len(kinds) == 3 else m.cs
    return max(oracle.assignments(*s.shape), key=lambda t: sum(oracle.to_db(s, kw.get("clamp_db"))[k, j] for k, j in t[0]))[1]


def run(sc, r):
    fn, kw, K, M, dt = sc["fn"], dict(sc["kw"]), sc["K"], sc["M"], sc["dtype"]
    T = sc.get("T", 30)
    kinds = compare.kinds_of(fn)
    if K == 1 and len(kinds) == 3:
        r.skipped += 1  # SIR of a single reference is infinite, it has no gradient
        return
    L = compare.flen(fn, kw)
    if L == 1 and kw.get("load_diag") and len(kinds) == 3:
        # a single tap loads only the joint system: a loading of more than the inverse SIR saturates the SIR
        kw["load_diag"] *= 1e-4
    bs = sc["batch"]
    ref, est = signals.batch(bs, K, M, T, "c17", snr=0.45, leak=0.6, letters=sc["letters"])
    if sc["letters"][0] == "loud":
        est[..., 0, :] *= 1e4
    tdt = getattr(torch, dt)

    def make(x, g):
        x = np.asarray(x, dtype=dt)
        if sc["layout"] == "strided":
            big = np.zeros(x.shape[:-1] + (2 * T,), dtype=dt)
            big[..., ::2] = x
            t = torch.from_numpy(big).requires_grad_(g)
            return t, t[..., ::2]
        t = torch.from_numpy(x.copy()).requires_grad_(g)
        return t, (t * 1.0 if not sc["leaf"] else t)

    tr, ur = make(ref, sc["wants"] in ("both", "ref"))
    te, ue = make(est, sc["wants"] in ("both", "est"))
    lab = f"{fn}/{dt} {kw} KM={(K, M)} batch={bs} wants={sc['wants']} leaf={sc['leaf']} {sc['layout']} {sc['letters']}"
    r.calls += 1
    r.states += 1
    mode0 = torch.is_grad_enabled()
    try:
        out = forward(fn, ur, ue, kw)
    except Exception as e:
        r.fail(lab + f": raised {e!r}")
        return
    if torch.is_grad_enabled() != mode0:
        torch.set_grad_enabled(mode0)
        r.fail(lab + ": grad mode changed")
        return
    outs = out if isinstance(out, tuple) else (out,)
    met = outs[: len(kinds)]
    if ref.size and not all(o.requires_grad for o in met):
        r.fail(lab + ": a metric does not require grad although an input does")
        return
    if len(outs) > len(kinds) and outs[-1].requires_grad:
        r.fail(lab + ": the permutation requires grad")
        return
    if not ref.size:
        return
    w = [weights(o.numel() + i)[i:].reshape(o.shape) for i, o in enumerate(met)]
    loss = sum((torch.from_numpy(x).to(tdt) * o).sum() for x, o in zip(w, met))
    try:
        loss.backward()
    except Exception as e:
        r.fail(lab + f": backward raised {e!r}")
        return
    # the closed form
    rr, ee = rounded(ref, dt), rounded(est, dt)
    sg = compare.sign_of(fn, kw)
    G = [np.zeros(ref.shape), np.zeros(est.shape)]
    for i in np.ndindex(*bs):
        perm = None
        if compare.mode_of(fn, kw) == "perm":
            perm = [int(x) for x in outs[-1][i]] if len(outs) > len(kinds) else find_perm(fn, kw, rr[i], ee[i], dt)
            if not oracle.valid_perm(perm, K, M):
                r.fail(lab + ": not an assignment", perm=perm)
                return
        terms = []
        for kind, x in zip(kinds, w):
            for (k, m), v in zip(terms_of(fn, kw, K, M, perm), np.asarray(x[i]).ravel()):
                terms.append((kind, k, m, sg * v))
        a, b = grad.gradient(rr[i], ee[i], L, terms, kw.get("zero_mean", False), kw.get("load_diag"), kw.get("clamp_db"))
        G[0][i], G[1][i] = a, b
    tol = (1e-8 if dt == F64 else 5e-3) if not kw.get("use_cg_iter") or L == 1 else (0.3 if len(kinds) == 3 else 0.02)
    for nm, t, g, on in (("ref", tr, G[0], sc["wants"] != "est"), ("est", te, G[1], sc["wants"] != "ref")):
        if not on:
            if t.grad is not None:
                r.fail(lab + f": gradient for {nm}, which does not require it")
                return
            continue
        if t.grad is None:
            r.fail(lab + f": no gradient for {nm}")
            return
        a = t.grad.numpy().astype(np.float64)
        if sc["layout"] == "strided":
            a = a[..., ::2]
        if t.grad.dtype != tdt or a.shape != g.shape:
            r.fail(lab + f": gradient of {nm} has dtype {t.grad.dtype}, shape {a.shape}")
            return
        # relative to the norm of the gradient of the channel (channels may have very different scales)
        n = np.sqrt((g**2).sum(-1, keepdims=True))
        xn = np.sqrt(((rr if nm == "ref" else ee) ** 2).sum(-1, keepdims=True))
        with np.errstate(all="ignore"):
            err = np.abs(a - g) / (n + 1e-2 / xn)
        worst = float(np.max(err)) if err.size and np.isfinite(err).all() else (0.0 if not err.size else np.inf)
        if not worst <= tol:
            i = np.unravel_index(int(np.nanargmax(np.where(np.isfinite(err), err, 1e30))), err.shape)
            r.fail(lab + f": gradient of {nm} differs from the closed form (relative error {worst:.3g})", at=i, got=a[i], expected=g[i])
            return
    r.outcome(*[o.detach().numpy() for o in met])


# ---------------------------------------------------------------- finiteness
def finite_space(c, tmax, clamps):
    fn = c("fn", ("sdr_loss", "sdr", "sdr_pit_loss", "bss_eval_sources", "si_sdr_loss", "si_sdr", "si_sdr_pit_loss", "si_bss_eval_sources"))
    kw = Opts(filter_length=(2, 1, 3), clamp_db=clamps, load_diag=(1e-3, 1e-10) if "si_" not in fn else (1e-3,)).draw(c, fn, exclude=("change_sign", "use_cg_iter", "return_perm"))
    return dict(fn=fn, kw=kw, T=c("T", range(1, tmax + 1)), dtype=c("dtype", DTYPES))


def run_finite(sc, r):
    """All pairs of {-1,0,1} signals (silent ones included) as a batch: finite gradients, zero for saturated metrics."""
    fn, kw, T, dt = sc["fn"], dict(sc["kw"]), sc["T"], sc["dtype"]
    S = all_signals(T, (-1, 0, 1), nonzero=False)
    n = len(S)
    bss = len(compare.kinds_of(fn)) == 3
    R, E = np.repeat(S, n, 0)[:, None], np.tile(S, (n, 1))[:, None]
    if bss:
        k = (E != 0).any((-1, -2)) & (R != 0).any((-1, -2))
        if kw.get("zero_mean"):
            k &= (E.max(-1) != E.min(-1))[:, 0] & (R.max(-1) != R.min(-1))[:, 0]
        R, E = R[k], E[k]  # otherwise the SIR is not defined
        # two exactly orthogonal signals have no target nor interference
        k = oracle.exact_coh(R * T - (R.sum(-1, keepdims=True) if kw.get("zero_mean") else 0), (E * T - (E.sum(-1, keepdims=True) if kw.get("zero_mean") else 0))[:, 0],
                             compare.flen(fn, kw))[0] > 1e-9
        R, E = R[k], E[k]
    if not len(R):
        r.skipped += 1
        return
    tr = torch.from_numpy(R.astype(dt)).requires_grad_(True)
    te = torch.from_numpy(E.astype(dt)).requires_grad_(True)
    r.calls += 1
    r.states += len(R)
    lab = f"{fn}/{dt} {kw} T={T}"
    try:
        out = forward(fn, tr, te, kw)
        outs = (out if isinstance(out, tuple) else (out,))[: len(compare.kinds_of(fn))]
        sum(o.sum() for o in outs).backward()
    except Exception as e:
        r.fail(lab + f": {e!r}")
        return
    sat = np.ones(len(R), bool)
    for o in outs:
        v = np.abs(o.detach().numpy().astype(np.float64)).reshape(len(R), -1)
        if not np.isfinite(v).all():
            r.fail(lab + ": metric not finite", first=int(np.argwhere(~np.isfinite(v))[0][0]))
            return
        sat &= (v >= kw["clamp_db"] * (1 - 1e-6)).all(-1)
    for nm, t in (("ref", tr), ("est", te)):
        g = t.grad.numpy().reshape(len(R), -1)
        if not np.isfinite(g).all():
            i = int(np.argwhere(~np.isfinite(g))[0][0])
            r.fail(lab + f": gradient of {nm} not finite", ref=R[i], est=E[i], grad=g[i])
            return
        # a saturated metric may sit exactly on the limit, where either one-sided derivative is right
        strict = sat & strictly_saturated(R, E, fn, kw)
        if np.abs(g[strict]).max(initial=0) > 0:
            i = int(np.argwhere(strict & (np.abs(g).max(-1) > 0))[0][0])
            r.fail(lab + f": gradient of {nm} of a saturated metric is not zero", ref=R[i], est=E[i], grad=g[i])
            return
        r.outcome(g)


def strictly_saturated(R, E, fn, kw):
    """Items all of whose metrics are at least 1 dB beyond the limit by definition (single reference, single estimate)."""
    L, c = compare.flen(fn, kw), kw["clamp_db"]
    lam = kw.get("load_diag") or 0.0
    r, e = R[:, 0].astype(np.float64), E[:, 0].astype(np.float64)
    if kw.get("zero_mean"):
        r, e = r - r.mean(-1, keepdims=True), e - e.mean(-1, keepdims=True)
    r, e = (x / np.maximum(np.linalg.norm(x, axis=-1, keepdims=True), 1e-6) for x in (r, e))
    A = oracle.shifts(r[:, None], L)
    b = np.einsum("ntl,nt->nl", A, oracle.pad(e, L))
    G = np.swapaxes(A, -1, -2) @ A + lam * np.eye(L)
    silent = np.diagonal(G, axis1=-2, axis2=-1)[:, 0] == 0
    G[silent] = np.eye(L)
    co = np.einsum("nl,nl->n", b, np.linalg.solve(G, b[..., None])[..., 0])
    cs = b[:, 0] ** 2 if L == 1 else co
    beyond = np.abs(oracle.to_db(cs)) > c + 1
    if len(compare.kinds_of(fn)) == 3:
        beyond &= np.abs(oracle.to_db(co)) > c + 1  # (the SIR of a single reference is infinite)
    return beyond


# ---------------------------------------------------------------- grad mode
def mode_space(c):
    fn = c("fn", FN)
    kw = Opts(filter_length=(4, 1), use_cg_iter=(None, 3)).draw(c, fn, dev=1)
    return dict(fn=fn, kw=kw, mode=c("mode", ("enabled", "no_grad", "inference", "enabled in no_grad")), what=c("what", ("good", "nan", "shape", "silent")), wants=c("wants", ("none", "both", "est")))


def run_mode(sc, r):
    fn, kw = sc["fn"], dict(sc["kw"])
    ref, est = signals.scene(2, 2, 30, "c17m")
    if sc["what"] == "nan":
        est[1, 3] = np.nan
    elif sc["what"] == "shape":
        ref = ref[..., :0]
    elif sc["what"] == "silent":
        ref[0] = 0
    tr, te = torch.from_numpy(ref.copy()), torch.from_numpy(est.copy())
    if sc["wants"] != "none":
        te.requires_grad_(True)
    if sc["wants"] == "both":
        tr.requires_grad_(True)
    ctxs = {"enabled": [torch.enable_grad()], "no_grad": [torch.no_grad()], "inference": [torch.inference_mode()], "enabled in no_grad": [torch.no_grad(), torch.enable_grad()]}[sc["mode"]]
    r.calls += 1
    r.states += 1
    lab = f"{fn} {kw} mode={sc['mode']} {sc['what']} wants={sc['wants']}"
    import contextlib

    with contextlib.ExitStack() as st:
        for x in ctxs:
            st.enter_context(x)
        before = (torch.is_grad_enabled(), torch.is_inference_mode_enabled())
        try:
            out = forward(fn, tr, te, kw)
            exc = None
        except Exception as e:
            out, exc = None, e
        after = (torch.is_grad_enabled(), torch.is_inference_mode_enabled())
    if before != after:
        r.fail(lab + f": grad mode {before} became {after} ({exc!r})")
        return
    if sc["what"] == "good":
        if exc is not None:
            r.fail(lab + f": raised {exc!r}")
            return
        outs = out if isinstance(out, tuple) else (out,)
        want = before[0] and sc["wants"] != "none"
        for o in outs[: len(compare.kinds_of(fn))]:
            if o.requires_grad != want:
                r.fail(lab + f": requires_grad={o.requires_grad}, expected {want}")
                return
    r.outcome(int(exc is None))


# ---------------------------------------------------------------- derivatives of the returned values themselves
def self_space(c, cgs):
    fn = c("fn", FN)
    K, M = c("KM", ((2, 2), (2, 3), (3, 2), (2, 1)), dev=1)
    kw = Opts(filter_length=(4, 1, 7), clamp_db=(None, 9.0), load_diag=(None, 1e-3), use_cg_iter=cgs).draw(c, fn, dev=1)
    if needs_square(fn, kw) and K != M:
        raise Skip()
    return dict(fn=fn, K=K, M=M, kw=kw, batch=c("batch", ((), (2,), (1, 2)), dev=1))


def run_self(sc, r):
    """In double precision: reverse mode, forward mode and second order derivatives against central differences of the
    returned values (first order) and of the first order gradient (second order)."""
    fn, kw, K, M = sc["fn"], dict(sc["kw"]), sc["K"], sc["M"]
    T = 30
    nk = len(compare.kinds_of(fn))
    if compare.flen(fn, kw) == 1 and kw.get("load_diag") and nk == 3:
        kw["load_diag"] *= 1e-4
    ref, est = signals.batch(sc["batch"], K, M, T, "c17s", snr=0.45, leak=0.6)
    X = [torch.from_numpy(ref), torch.from_numpy(est)]
    D = [[torch.from_numpy(signals.batch(sc["batch"], K, M, T, ("c17d", q))[j]) for j in (0, 1)] for q in range(2)]
    lab = f"{fn} {kw} KM={(K, M)} batch={sc['batch']}"

    def val(a, b):
        out = forward(fn, a, b, kw)
        met = (out if isinstance(out, tuple) else (out,))[:nk]
        return sum((torch.from_numpy(weights(o.numel() + i)[i:].reshape(tuple(o.shape))) * o).sum() for i, o in enumerate(met))

    def grads(a, b, create=False):
        a, b = a.detach().requires_grad_(True), b.detach().requires_grad_(True)
        return a, b, torch.autograd.grad(val(a, b), (a, b), create_graph=create)

    h = 1e-5
    r.calls += 14
    r.states += 1
    try:
        for q, d in enumerate(D):
            # each input alone, then both
            for on in ((1, 0), (0, 1), (1, 1)):
                v = [d[j] * on[j] for j in (0, 1)]
                with torch.no_grad():
                    fd = (val(X[0] + h * v[0], X[1] + h * v[1]) - val(X[0] - h * v[0], X[1] - h * v[1])).item() / (2 * h)
                _, _, g = grads(*X)
                rev = sum((x * y).sum() for x, y in zip(g, v)).item()
                if not abs(rev - fd) <= 1e-5 * (abs(fd) + 1):
                    r.fail(lab + f": the gradient along a direction ({on}) is {rev}, the values change by {fd}")
                    return
            with torch.autograd.forward_ad.dual_level():
                y = val(*[torch.autograd.forward_ad.make_dual(x, t) for x, t in zip(X, d)])
                tan = torch.autograd.forward_ad.unpack_dual(y).tangent
            tan = 0.0 if tan is None else tan.item()
            if not abs(tan - fd) <= 1e-5 * (abs(fd) + 1):
                r.fail(lab + f": the forward mode derivative is {tan}, the values change by {fd}")
                return
            # second order
            u = D[1 - q]
            a, b, g = grads(*X, create=True)
            s = sum((x * y).sum() for x, y in zip(g, d))
            H = torch.autograd.grad(s, (a, b), allow_unused=True) if s.requires_grad else (None, None)
            sec = sum((x * y).sum().item() for x, y in zip(H, u) if x is not None)
            gp, gm = (grads(X[0] + e * u[0], X[1] + e * u[1])[2] for e in (h, -h))
            fd2 = sum(((x - y) * z).sum().item() for x, y, z in zip(gp, gm, d)) / (2 * h)
            if not abs(sec - fd2) <= 1e-4 * (abs(fd2) + 1):
                r.fail(lab + f": the second derivative is {sec}, the gradient changes by {fd2}")
                return
            r.outcome(fd, fd2)
    except Exception as e:
        r.fail(lab + f": raised {e!r}")


def long_space(c, sizes):
    return dict(fn=c("fn", ("sdr_loss", "bss_eval_sources", "sdr", "sdr_pit_loss")), size=c("T,L", sizes), K=2, M=2, batch=(), wants="both", leaf=True, layout="contiguous", letters=("white", "ar"), dtype=c("dtype", DTYPES))


def run_longer(sc, r):
    T, L = sc["size"]
    run(dict(sc, kw=dict(filter_length=L), T=T), r)


def build(chk):
    th = chk.thorough
    chk.group("closed_form", lambda c: space(c, ((2, 2), (3, 3), (2, 3), (3, 2), (1, 1), (1, 2), (2, 1), (3, 1), (1, 3)), (4, 1, 2, 5), (None, 8.0, 60.0), (None, 1e-3, 0.2), (None, 40), ((), (2,), (2, 2), (1,), (0,))), run,
              bound=3 if th else 2, timeout=200,
              what="functions x shapes x options x batch shapes x which input requires grad x leaf or not x strided or not x letters, up to a number of non-default choices: closed form gradients")
    chk.group("finite", lambda c: finite_space(c, 4 if th else 3, (20.0, 60, 100.0, 0.0) if th else (20.0, 100.0, 0.0)), run_finite,
              what="all pairs of {-1,0,1} signals, silent included, with clamping and loading: finite gradients, zero when saturated")
    chk.group("grad_mode", mode_space, run_mode, bound=3 if th else 1, what="functions x options x grad modes x good, failing and degenerate inputs: the grad mode is left as it was")
    chk.group("derivatives", lambda c: self_space(c, (None, 2, 40, 5) if th else (None, 2, 40)), run_self, bound=3 if th else 2, timeout=200,
              what="functions x shapes x options (iterative solver with few and many iterations included), up to a number of non-default choices: reverse mode, forward mode and second order "
                   "derivatives along directions against central differences")
    chk.group("long", lambda c: long_space(c, ((1200, 512), (700, 300), (400, 33), (257, 16)) if th else ((1200, 512), (300, 40))), run_longer, timeout=300, what="long signals and filters, the default of 512 taps included: closed form gradients")
