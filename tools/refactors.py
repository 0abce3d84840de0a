"""Behaviour-preserving edits (development tool, used by no check): every quick check must stay quiet on each of them.

usage: refactors.py [--tests] [ids...] [-p C01,C02]      results in /tmp/rf/results.json"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
R = {}


def r(rid, *edits):
    R[rid] = edits


NM, TM, NH, TH, NL, TL, NC, TC, TU, I = ("numpy/metrics.py", "torch/metrics.py", "numpy/helpers.py", "torch/helpers.py", "numpy/linalg.py", "torch/linalg.py", "numpy/cgd.py", "torch/cgd.py", "torch/hungarian.py", "__init__.py")
NS, TS, CP = "numpy/scale_invariant.py", "torch/scale_invariant.py", "torch/compatibility.py"

SOLVE_N = '''        # regular matrix solver
        R_mat = toeplitz(acf{s})
        if pairwise:
            sol = np.linalg.solve(R_mat, xcorr{s})
        else:
            # numpy >= 2.0 only accepts stacks of matrices
            sol = np.linalg.solve(R_mat, xcorr{s}[..., None])[..., 0]
    else:
        # use preconditioned conjugate gradient
        sol = toeplitz_conjugate_gradient(acf{s}, xcorr{s}, n_iter=use_cg_iter)
'''


def ind(s, n):
    return "".join(" " * n + x if x.strip() else x for x in s.splitlines(True))


# numpy metrics: helpers extracted, einsum -> matmul / sum, memoised transform length
r("np-metrics",
  (NM, "def square_cosine_metrics_length_one_filter(", '''def _prepare(ref, est, zero_mean):
    if zero_mean:
        ref, est = (_remove_mean(x, axis=-1) for x in (ref, est))
    return tuple(_normalize(x, axis=-1) for x in (ref, est))


@functools.lru_cache(maxsize=None)
def _transform_size(n):
    return fft.next_fast_len(n, real=True)


def _best_filters(acf, xcorr, n_iter, pairwise):
    """solves for the distortion filters"""
    if n_iter is not None:
        return toeplitz_conjugate_gradient(acf, xcorr, n_iter=n_iter)
    rhs = xcorr if pairwise else xcorr[..., None]
    out = np.linalg.solve(toeplitz(acf), rhs)
    return out if pairwise else out[..., 0]


def _coherence(xcorr, sol, axis):
    return (xcorr * sol).sum(axis=axis)


def square_cosine_metrics_length_one_filter('''),
  (NM, "import math\n", "import functools\n"),
  (NM, '''    if zero_mean:
        ref = _remove_mean(ref, axis=-1)
        est = _remove_mean(est, axis=-1)

    ref = _normalize(ref, axis=-1)
    est = _normalize(est, axis=-1)
''', "    ref, est = _prepare(ref, est, zero_mean)\n"),
  (NM, '''        if zero_mean:
            est = _remove_mean(est)
            ref = _remove_mean(ref)

        # normalize along time-axis
        est = _normalize(est, axis=-1)
        ref = _normalize(ref, axis=-1)
''', "        ref, est = _prepare(ref, est, zero_mean)\n"),
  (NM, '''    if zero_mean:
        est = _remove_mean(est)
        ref = _remove_mean(ref)

    # normalize along time-axis
    est = _normalize(est, axis=-1)
    ref = _normalize(ref, axis=-1)
''', "    ref, est = _prepare(ref, est, zero_mean)\n"),
  (NM, '    n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))\n', "    n_fft = _transform_size(x.shape[-1] + max_len - 1)\n"),
  (NM, '    n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))\n', "    n_fft = _transform_size(x.shape[-1] + max_len - 1)\n"),
  (NM, "        if use_cg_iter is None:\n" + ind(SOLVE_N.format(s=""), 4), "        sol = _best_filters(acf, xcorr, use_cg_iter, pairwise)\n"),
  (NM, "    if use_cg_iter is None:\n" + SOLVE_N.format(s="_sdr"), "    sol = _best_filters(acf_sdr, xcorr_sdr, use_cg_iter, pairwise)\n"),
  (NM, '        xcorr = np.einsum("...cn,...dn->...cd", ref, est)', "        xcorr = ref @ est.swapaxes(-2, -1)"),
  (NM, '        acm = np.einsum("...cn,...dn->...cd", ref, ref)', "        acm = ref @ ref.swapaxes(-2, -1)"),
  (NM, '            coh = np.einsum("...lc,...lc->...c", xcorr, sol)\n        else:\n            coh = np.einsum("...l,...l->...", xcorr, sol)', "            coh = _coherence(xcorr, sol, -2)\n        else:\n            coh = _coherence(xcorr, sol, -1)"),
  (NM, '    coh_sar = np.einsum("...lc,...lc->...c", xcorr, sol)\n\n    if', '    coh_sar = _coherence(xcorr, sol, -2)\n\n    if'),
  (NM, '        return coh_sdr\n\n\ndef compute_stats(', '        return coh_sdr\n\n\ndef compute_stats('),
  (NM, '''    neg_sdr, perm = _solve_permutation(neg_sdr, return_perm=True)

    sdr = neg_sdr if change_sign else -neg_sdr

    if return_perm:
        return sdr, perm
    else:
        return sdr
''', '''    best, *perm = _solve_permutation(neg_sdr, return_perm=True)
    best = best if change_sign else np.negative(best)
    return (best, perm[0]) if return_perm else best
'''),
  )

# numpy helpers: loops rewritten, early conversions, flattened batches
r("np-helpers",
  (NH, '''    if min is not None:
        x = np.maximum(x, min)

    if max is not None:
        x = np.minimum(x, max)

    return x
''', '''    lo = -np.inf if min is None else min
    hi = np.inf if max is None else max
    return np.clip(x, lo, hi)
'''),
  (NH, "    return x - x.mean(axis=axis, keepdims=True)", "    mean = np.mean(x, axis=axis, keepdims=True)\n    return np.subtract(x, mean)"),
  (NH, "    x = x / clamp(np.linalg.norm(x, axis=axis, keepdims=True), min=eps)\n    return x", "    norm = np.linalg.norm(x, axis=axis, keepdims=True)\n    return x / np.maximum(norm, eps)"),
  (NH, '''    loss_out = np.zeros_like(loss_mat, shape=b_shape + (n_chan_out,))
    args_out = [np.zeros_like(arg, shape=b_shape + (n_chan_out,)) for arg in args]

    p_opts = np.zeros(b_shape + (n_chan_out,), dtype=np.int64)
    for m in np.ndindex(b_shape):
        # linear sum assignment tries to *maximize* the sum, so we add a minus sign
        # because we are supposed to *minimize* losses
        dum, p_opt = _linear_sum_assignment_with_inf(loss_mat[m])
        loss_out[m] = loss_mat[m + (dum, p_opt)]
        for i, arg in enumerate(args):
            args_out[i][m] = arg[m + (dum, p_opt)]
        p_opts[m] = p_opt
''', '''    p_opts = np.empty(b_shape + (n_chan_out,), dtype=np.int64)
    for m in np.ndindex(b_shape):
        p_opts[m] = _linear_sum_assignment_with_inf(loss_mat[m])[1]

    def pick(x):
        return np.take_along_axis(x, p_opts[..., None], axis=-1)[..., 0]

    loss_out, *args_out = [pick(x) for x in [loss_mat, *args]]
'''),
  (NH, '''        m = values.min() if values.size > 0 else 0.0
        M = values.max() if values.size > 0 else 0.0
        n = min(cost_matrix.shape)
        # strictly positive constant even when added
        # to elements of the cost matrix
        positive = n * (M - m + np.abs(M) + np.abs(m) + 1)
        if max_inf:
            place_holder = (M + (n - 1) * (M - m)) + positive
        if min_inf:
            place_holder = (m + (n - 1) * (m - M)) - positive

        cost_matrix[np.isinf(cost_matrix)] = place_holder
''', '''        lo, hi = (values.min(), values.max()) if len(values) else (0.0, 0.0)
        n = min(cost_matrix.shape)
        spread = hi - lo
        positive = n * (spread + abs(hi) + abs(lo) + 1)
        if max_inf:
            place_holder = hi + (n - 1) * spread + positive
        else:
            place_holder = lo - (n - 1) * spread - positive

        cost_matrix = np.where(np.isinf(cost_matrix), place_holder, cost_matrix)
'''),
  (NH, '''    e = 10.0 ** (-db_max / 10.0)
    eps = e / (1.0 + e)
    return eps''', "    return 1.0 / (1.0 + 10.0 ** (db_max / 10.0))"),
  (NH, '''    if clamp_db is not None:
        # clamp within desired decibel range
        eps = _db_clamp_eps(clamp_db)
    else:
        eps = 0.0
''', "    eps = 0.0 if clamp_db is None else _db_clamp_eps(clamp_db)\n"),
  )

# numpy linear algebra by explicit indexing; CG loop with a helper
r("np-linalg",
  (NL, '''    two_x = np.concatenate((x[..., :0:-1], x), axis=-1)
    H = hankel_view(two_x, n_rows=x.shape[-1])
    T = H[..., ::-1, :]
    return T
''', '''    i = np.arange(x.shape[-1])
    return x[..., np.abs(i[:, None] - i[None, :])]
'''),
  (NL, '''    for r in range(x.shape[-2]):
        for c in range(x.shape[-1]):
            vec = np.concatenate((x[..., -n + 1 :, r, c], x[..., :n, r, c]), axis=-1)
            T = hankel_view(vec, n)
            out[..., :, r, :, c] = T[..., ::-1, :]
''', '''    for r, c in np.ndindex(rows, cols):
        fwd, bwd = x[..., :n, r, c], x[..., top - n + 1 :, r, c]
        vec = np.concatenate((bwd, fwd), axis=-1)
        for k in range(n):
            out[..., k, r, :, c] = vec[..., n - 1 - k : 2 * n - 1 - k]
'''),
  )


def cg(lib):
    ax = "axis" if lib == "np" else "dim"
    f = NC if lib == "np" else TC
    src = open(f"/repo/fast_bss_eval/{f}").read()
    i = src.index("    r = b - A @ x\n")
    j = src.index("    if add_axis:\n        x = x[..., 0]\n")
    body = src[i:j]
    cl = "clamp" if lib == "np" else "torch.clamp"
    mean = "np.mean(np.linalg.norm" if lib == "np" else "torch.mean(torch.linalg.norm"
    new = f'''    def distance(x):
        return {mean}(x - x_true, {ax}=-2))

    if x_true is not None and add_axis:
        x_true = x_true[..., None]
    errors = [] if x_true is None else [distance(x)]

    res = b - A @ x
    pre = precond @ res
    direction = pre
    energy = inner_prod(res, pre)

    done = 0
    while done < n_iter:
        image = A @ direction
        step = (energy / {cl}(inner_prod(direction, image), min=1e-6))[..., None, :]
        x = x + step * direction
        res = res - step * image
        pre = precond @ res
        new_energy = inner_prod(res, pre)
        if verbose:
            print(new_energy.mean())
        direction = pre + (new_energy / {cl}(energy, min=1e-6))[..., None, :] * direction
        energy = new_energy
        if x_true is not None:
            errors.append(distance(x))
        done += 1

''' + ("    x = x.astype(b.dtype, copy=False)\n\n" if lib == "np" else "")
    return (f, body, new)


r("np-cg", cg("np"))
r("th-cg", cg("th"),
  (TC, '''def inner_prod(a: torch.Tensor, b: torch.Tensor) -> torch.Tensor:
    return einsum("...cd,...cd->...d", a.conj(), b)''', '''def inner_prod(a: torch.Tensor, b: torch.Tensor) -> torch.Tensor:
    return (a.conj() * b).sum(dim=-2)'''))

# torch metrics
r("th-metrics",
  (TM, "def square_cosine_metrics_length_one_filter(", '''def _prepare(ref, est, zero_mean):
    if zero_mean:
        ref, est = (_remove_mean(x) for x in (ref, est))
    return _normalize(ref, dim=-1), _normalize(est, dim=-1)


def _spectra(x, y, length):
    longest = max(x.shape[-1], y.shape[-1], length)
    n_fft = 1 << (x.shape[-1] + longest - 2).bit_length()
    return n_fft, rfft(x, n=n_fft, dim=-1), rfft(y, n=n_fft, dim=-1)


def _inner(a, b, dim):
    return torch.sum(a * b, dim=dim)


def square_cosine_metrics_length_one_filter('''),
  (TM, '''    if zero_mean:
        ref = _remove_mean(ref, dim=-1)
        est = _remove_mean(est, dim=-1)

    ref = _normalize(ref, dim=-1)
    est = _normalize(est, dim=-1)
''', "    ref, est = _prepare(ref, est, zero_mean)\n"),
  (TM, '''        if zero_mean:
            est = _remove_mean(est)
            ref = _remove_mean(ref)

        # normalize along time-axis
        est = _normalize(est, dim=-1)
        ref = _normalize(ref, dim=-1)
''', "        ref, est = _prepare(ref, est, zero_mean)\n"),
  (TM, '''    if zero_mean:
        est = _remove_mean(est)
        ref = _remove_mean(ref)

    # normalize along time-axis
    est = _normalize(est, dim=-1)
    ref = _normalize(ref, dim=-1)
''', "    ref, est = _prepare(ref, est, zero_mean)\n"),
  (TM, '''    max_len = max(x.shape[-1], y.shape[-1], length)
    n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))

    X = rfft(x, n=n_fft, dim=-1)
    Y = rfft(y, n=n_fft, dim=-1)
''', "    n_fft, X, Y = _spectra(x, y, length)\n"),
  (TM, '''    max_len = max(x.shape[-1], y.shape[-1], length)
    n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))

    X = rfft(x, n=n_fft, dim=-1)
    Y = rfft(y, n=n_fft, dim=-1)
''', "    n_fft, X, Y = _spectra(x, y, length)\n"),
  (TM, '    XY = einsum("...cn,...dn->...ncd", X.conj(), Y)\n    xcorr = irfft(XY, n=n_fft, dim=-3)', '    XY = (X.conj()[..., :, None, :] * Y[..., None, :, :]).movedim(-1, -3)\n    xcorr = irfft(XY, n=n_fft, dim=-3)'),
  (TM, '        xcorr = torch.einsum("...cn,...dn->...cd", ref, est)', "        xcorr = torch.matmul(ref, est.transpose(-2, -1))"),
  (TM, '        acm = torch.einsum("...cn,...dn->...cd", ref, ref)', "        acm = torch.matmul(ref, ref.mT)"),
  (TM, '        coh_sdr = torch.einsum("...n,...n->...", ref, est)', "        coh_sdr = _inner(ref, est, -1)"),
  (TM, '    coh_sar = torch.einsum("...lc,...lc->...c", xcorr, sol)\n\n    if', "    coh_sar = _inner(xcorr, sol, -2)\n\n    if"),
  (TM, '''        diag_view = torch.diagonal(acf[..., 0, :, :], dim1=-2, dim2=-1)
        diag_view += load_diag
''', '''        loading = torch.zeros_like(acf[..., 0, :, :]) + torch.eye(
            acf.shape[-1], dtype=acf.dtype, device=acf.device
        )
        acf = torch.cat((acf[..., :1, :, :] + load_diag * loading[..., None, :, :], acf[..., 1:, :, :]), dim=-3)
'''),
  (TM, '''    sdr = neg_sdr if change_sign else -neg_sdr

    if return_perm:
        return sdr, perm
    else:
        return sdr
''', '''    if not change_sign:
        neg_sdr = -neg_sdr

    return (neg_sdr, perm) if return_perm else neg_sdr
'''),
  (TM, '''    neg_sdr = _coherence_to_neg_sdr(coh_sdr, clamp_db=clamp_db)
    neg_sir = _coherence_to_neg_sdr(coh_sir, clamp_db=clamp_db)
    neg_sar = _coherence_to_neg_sdr(coh_sar, clamp_db=clamp_db)

    return neg_sdr, neg_sir, neg_sar
''', '''    return tuple(
        _coherence_to_neg_sdr(c, clamp_db=clamp_db) for c in (coh_sdr, coh_sir, coh_sar)
    )
'''),
  )

# torch helpers: gather instead of per-matrix indexing
r("th-helpers",
  (TH, "    return x - x.mean(dim=dim, keepdim=True)", "    return torch.sub(x, torch.mean(x, dim, keepdim=True))"),
  (TH, "    x = x / torch.clamp(x.norm(dim=dim, keepdim=True), min=eps)\n    return x", "    return torch.div(x, torch.linalg.vector_norm(x, dim=dim, keepdim=True).clamp(min=eps))"),
  (TH, '''    loss_out = loss_mat.new_zeros(b_shape + (n_chan_out,))
    args_out = [arg.new_zeros(b_shape + (n_chan_out,)) for arg in args]

    p_opts = target_loss_matrix.new_zeros(b_shape + (n_chan_out,), dtype=torch.int64)
    for m in np.ndindex(b_shape):
        # linear sum assignment tries to *maximize* the sum, so we add a minus sign
        # because we are supposed to *minimize* losses
        dum, p_opt = _linear_sum_assignment_with_inf(loss_mat[m])
        loss_out[m] = loss_mat[m + (dum, p_opt)]
        for i, arg in enumerate(args):
            args_out[i][m] = arg[m + (dum, p_opt)]
        p_opts[m] = p_opt
''', '''    found = [_best_columns(loss_mat[m]) for m in np.ndindex(b_shape)]
    if found:
        p_opts = torch.stack(found).reshape(b_shape + (n_chan_out,)).to(loss_mat.device)
    else:
        p_opts = loss_mat.new_zeros(b_shape + (n_chan_out,), dtype=torch.int64)
    loss_out = torch.gather(loss_mat, -1, p_opts[..., None])[..., 0]
    args_out = tuple(arg.gather(-1, p_opts[..., None])[..., 0] for arg in args)
'''),
  (TH, "def _linear_sum_assignment_with_inf(", '''def _best_columns(mat):
    return _linear_sum_assignment_with_inf(mat)[1]


def _linear_sum_assignment_with_inf('''),
  (TH, '''        try:
            min_inf = torch.isneginf(cost_matrix).any()
            max_inf = torch.isposinf(cost_matrix).any()
        except AttributeError:
            # compat. with pytorch<=1.6
            min_inf = torch.isinf(torch.clamp(cost_matrix, max=0.0)).any()
            max_inf = torch.isinf(torch.clamp(cost_matrix, min=0.0)).any()
''', '''        infinite = torch.isinf(cost_matrix)
        min_inf = bool((infinite & (cost_matrix < 0)).any())
        max_inf = bool((infinite & (cost_matrix > 0)).any())
'''),
  (TH, "            cost_matrix[torch.isinf(cost_matrix)] = place_holder\n", "            cost_matrix = torch.where(infinite, torch.as_tensor(place_holder, dtype=cost_matrix.dtype), cost_matrix)\n"),
  )

# the assignment solver restructured: names, state, loop
r("th-hungarian",
  (TU, "_Hungary", "_State", "all"), (TU, "_step1", "_reduce", "all"), (TU, "_step3", "_cover_columns", "all"), (TU, "_step4", "_prime", "all"), (TU, "_step5", "_augment", "all"), (TU, "_step6", "_shift", "all"),
  (TU, "        self.path = self.C.new_zeros((n + m, 2), dtype=int)\n", ""),
  (TU, '''    count = 0
    path = state.path
    path[count, 0] = state.Z0_r
    path[count, 1] = state.Z0_c

    while True:
        # Find the first starred element in the col defined by
        # the path.
        nz = (state.marked[:, path[count, 1]] == 1).nonzero()
        if len(nz) == 0:
            # Could not find one
            break
        else:
            row = nz[0]
            count += 1
            path[count, 0] = row
            path[count, 1] = path[count - 1, 1]

        # Find the first prime element in the row defined by the
        # first path step
        nz = (state.marked[path[count, 0]] == 2).nonzero()
        if len(nz) == 0:
            col = -1
        col = nz[0]
        count += 1
        path[count, 0] = path[count - 1, 0]
        path[count, 1] = col

    # Convert paths
    for i in range(count + 1):
        if state.marked[path[i, 0], path[i, 1]] == 1:
            state.marked[path[i, 0], path[i, 1]] = 0
        else:
            state.marked[path[i, 0], path[i, 1]] = 1
''', '''    r, c = int(state.Z0_r), int(state.Z0_c)
    path = [(r, c)]
    while True:
        stars = (state.marked[:, c] == 1).nonzero()
        if len(stars) == 0:
            break
        r = int(stars[0])
        path.append((r, c))
        c = int((state.marked[r] == 2).nonzero()[0])
        path.append((r, c))

    for cell in path:
        state.marked[cell] = 0 if state.marked[cell] == 1 else 1
'''),
  (TU, '''    while step is not None:
        step = step(state)

    if transposed:
        marked = state.marked.transpose(-2, -1)
    else:
        marked = state.marked

    # split to row and col indices to return
    ret = (marked == 1).nonzero()
    return ret[..., :, 0], ret[..., :, 1]
''', '''    while step is not None:
        step = step(state)

    marked = state.marked.t() if transposed else state.marked
    rows, cols = torch.nonzero(marked == 1, as_tuple=True)
    return rows, cols
'''),
  (TU, '''    for i, j in (state.C == 0).nonzero():
        if state.col_uncovered[j] and state.row_uncovered[i]:
            state.marked[i, j] = 1
            state.col_uncovered[j] = False
            state.row_uncovered[i] = False
''', '''    taken_r, taken_c = set(), set()
    for i, j in (state.C == 0).nonzero().tolist():
        if j not in taken_c and i not in taken_r:
            state.marked[i, j] = 1
            taken_c.add(j)
            taken_r.add(i)
'''),
  )

# another (exact) assignment solver altogether, in both back ends
r("th-scipy-lsa",
  (TH, "from .hungarian import linear_sum_assignment\n", "from scipy.optimize import linear_sum_assignment as _lsa\n\n\ndef linear_sum_assignment(cost):\n    r, c = _lsa(cost.detach().cpu().numpy())\n    return torch.as_tensor(r, device=cost.device), torch.as_tensor(c, device=cost.device)\n"))

# torch linear algebra and operators
r("th-linalg",
  (TL, '''    two_x = torch.cat((x[..., 1:].flip(dims=(-1,)), x), dim=-1)
    H = hankel_view(two_x, n_rows=x.shape[-1])
    T = H.flip(dims=(-2,))
    return T
''', '''    i = torch.arange(x.shape[-1], device=x.device)
    return x[..., (i[:, None] - i).abs()]
'''),
  (TL, '''    for r in range(x.shape[-2]):
        for c in range(x.shape[-1]):
            vec = torch.cat((x[..., -n + 1 :, r, c], x[..., :n, r, c]), dim=-1)
            T = hankel_view(vec, n).flip(dims=(-2,))
            out[..., :, r, :, c] = T

    out = out.reshape(out.shape[:-4] + (n * rows, n * cols))

    return out
''', '''    blocks = []
    i = torch.arange(n, device=x.device)
    lag = i[None, :] - i[:, None]
    full = x[..., lag % top, :, :]
    blocks = full.transpose(-3, -2)
    return blocks.reshape(x.shape[:-3] + (n * rows, n * cols))
'''),
  (TC, '''        # n_fft = 2 ** math.ceil(math.log2(2 * n_col - 1))
        n_fft = 2 * n_col
''', '''        n_fft = 2 ** math.ceil(math.log2(2 * n_col))
'''),
  (CP, '''    def solve(*args, **kwargs):
        return torch.linalg.solve(*args, **kwargs)
''', '''    def solve(A, b):
        if b.ndim == A.ndim - 1:
            return torch.linalg.solve(A, b[..., None])[..., 0]
        return torch.linalg.solve(A, b)
'''),
  )

# public module: dispatch by table, lookups by name
r("init",
  (I, '''def _dispatch_backend(f_numpy, f_torch, *args, **kwargs):
    if has_torch and isinstance(args[0], pt.Tensor):
        return f_torch(*args, **kwargs)
    else:
        return f_numpy(*args, **kwargs)
''', '''def _is_tensor(x):
    return has_torch and isinstance(x, pt.Tensor)


def _dispatch_backend(f_numpy, f_torch, first, *args, **kwargs):
    backend = f_torch if _is_tensor(first) else f_numpy
    return backend(first, *args, **kwargs)
'''),
  (I, "", ""),
  (NS, '''    return sdr(
        ref,
        est,
        filter_length=1,
        zero_mean=zero_mean,
        clamp_db=clamp_db,
        return_perm=False,
        change_sign=True,
    )
''', '''    options = dict(zero_mean=zero_mean, clamp_db=clamp_db)
    return sdr(ref, est, 1, return_perm=False, change_sign=True, **options)
'''),
  (TS, '''    return sdr(
        ref,
        est,
        filter_length=1,
        zero_mean=zero_mean,
        clamp_db=clamp_db,
        return_perm=False,
        change_sign=True,
    )
''', '''    options = dict(zero_mean=zero_mean, clamp_db=clamp_db)
    return sdr(ref, est, 1, return_perm=False, change_sign=True, **options)
'''),
  )

# state that is harmless: a lock, a call counter, a memo keyed by everything it depends on
r("np-state",
  (NL, "def hankel_view(", '''_lock = threading.Lock()
_calls = {"toeplitz": 0}


@functools.lru_cache(maxsize=16)
def _lags(n):
    i = np.arange(n)
    out = np.abs(i[:, None] - i[None, :])
    out.flags.writeable = False
    return out


def hankel_view('''),
  (NL, "import numpy as np\n", "import functools\nimport threading\n\nimport numpy as np\n"),
  (NL, '''    two_x = np.concatenate((x[..., :0:-1], x), axis=-1)
    H = hankel_view(two_x, n_rows=x.shape[-1])
    T = H[..., ::-1, :]
    return T
''', '''    with _lock:
        _calls["toeplitz"] += 1
    return x[..., _lags(x.shape[-1])]
'''),
  )

# ---- second set
r("np2-metrics",
  (NM, "    # autocorrelation function\n    acf = fft.irfft(X.real**2 + X.imag**2, n=n_fft)", "    # autocorrelation function\n    acf = fft.irfft((X * X.conj()).real, n=n_fft, axis=-1)"),
  (NM, '''        XY = np.einsum("...cn,...dn->...cnd", X.conj(), Y)
        xcorr = fft.irfft(XY, n=n_fft, axis=-2)
        return acf[..., :length], xcorr[..., :length, :]

    else:
        XY = X.conj() * Y
        xcorr = fft.irfft(XY, n=n_fft, axis=-1)
        return acf[..., :length], xcorr[..., :length]
''', '''        lags = fft.irfft(X.conj()[..., :, None, :] * Y[..., None, :, :], n=n_fft)
        xcorr = np.swapaxes(lags[..., :length], -2, -1)
    else:
        xcorr = fft.irfft(np.multiply(X.conj(), Y), n=n_fft)[..., :length]

    return acf[..., :length], xcorr
'''),
  (NM, '''    prod = np.einsum("...cn,...dn->...ncd", X, X.conj())
    acf = fft.irfft(prod, n=n_fft, axis=-3)
    acf = np.concatenate([acf[..., :length, :, :], acf[..., -length:, :, :]], axis=-3)

    # cross-correlation
    XY = np.einsum("...cn,...dn->...ncd", X.conj(), Y)
    xcorr = fft.irfft(XY, n=n_fft, axis=-3)
    xcorr = xcorr[..., :length, :, :]
''', '''    def correlate(A, B):
        lags = fft.irfft(A[..., :, None, :] * B[..., None, :, :], n=n_fft, axis=-1)
        return np.moveaxis(lags, -1, -3)

    full = correlate(X, X.conj())
    n_lags = full.shape[-3]
    acf = np.zeros_like(full, shape=full.shape[:-3] + (2 * length,) + full.shape[-2:])
    acf[..., :length, :, :] = full[..., :length, :, :]
    acf[..., length:, :, :] = full[..., n_lags - length :, :, :]

    # cross-correlation
    xcorr = correlate(X.conj(), Y)[..., :length, :, :]
'''),
  (NM, '''    coh_sir = coh_sdr / coh_sar

    neg_sdr = _coherence_to_neg_sdr(coh_sdr, clamp_db=clamp_db)
    neg_sir = _coherence_to_neg_sdr(coh_sir, clamp_db=clamp_db)
    neg_sar = _coherence_to_neg_sdr(coh_sar, clamp_db=clamp_db)

    return neg_sdr, neg_sir, neg_sar
''', '''    out = []
    for coh in (coh_sdr, np.divide(coh_sdr, coh_sar), coh_sar):
        out.append(_coherence_to_neg_sdr(coh, clamp_db=clamp_db))
    return tuple(out)
'''),
  (NM, '''    diag_indices = list(range(ref.shape[-2]))

    if load_diag is not None:
        # the diagonal factor of the Toeplitz matrix is the first
        # coefficient of the acf
        acf[..., 0, diag_indices, diag_indices] += load_diag

    # solve for the SDR
    acf_sdr = acf[..., diag_indices, diag_indices]
    acf_sdr = acf_sdr.swapaxes(-2, -1)
    acf_sdr = acf_sdr[..., :filter_length]
''', '''    diag_indices = np.arange(acf.shape[-1])

    if load_diag is not None:
        loading = load_diag * np.eye(acf.shape[-1], dtype=acf.dtype)
        acf[..., 0, :, :] += loading

    # solve for the SDR
    acf_sdr = np.diagonal(acf, axis1=-2, axis2=-1)[..., :filter_length, :]
    acf_sdr = np.ascontiguousarray(acf_sdr.swapaxes(-2, -1))
'''),
  (NM, '''    if not compute_permutation:
        assert ref.shape[-2] == est.shape[-2], (
            "For non-pairwise computation, the number of reference"
            " and estimated signals must be the same"
        )
''', '''    same_number = ref.shape[-2] == est.shape[-2]
    if not (compute_permutation or same_number):
        raise AssertionError("the numbers of signals must be the same without permutation")
'''),
  )
r("np2-helpers",
  (NH, '''    cost_matrix = np.asarray(cost_matrix)
    min_inf = np.isneginf(cost_matrix).any()
    max_inf = np.isposinf(cost_matrix).any()
    if min_inf and max_inf:
        raise ValueError("matrix contains both inf and -inf")

    if min_inf or max_inf:
        cost_matrix = cost_matrix.copy()
''', '''    cost_matrix = np.array(cost_matrix)
    min_inf = (cost_matrix == -np.inf).any()
    max_inf = (cost_matrix == np.inf).any()
    if min_inf and max_inf:
        raise ValueError("infinite values of both signs")

    if min_inf or max_inf:
'''),
  (NH, '''    for m in np.ndindex(b_shape):
        # linear sum assignment tries to *maximize* the sum, so we add a minus sign
        # because we are supposed to *minimize* losses
        dum, p_opt = _linear_sum_assignment_with_inf(loss_mat[m])
        loss_out[m] = loss_mat[m + (dum, p_opt)]
        for i, arg in enumerate(args):
            args_out[i][m] = arg[m + (dum, p_opt)]
        p_opts[m] = p_opt
''', '''    mats = [loss_mat, *args]
    outs = [loss_out, *args_out]
    for m in np.ndindex(b_shape):
        rows, cols = _linear_sum_assignment_with_inf(mats[0][m])
        p_opts[m] = cols
        for src, dst in zip(mats, outs):
            for k, (i, j) in enumerate(zip(rows, cols)):
                dst[m + (k,)] = src[m + (i, j)]
'''),
  (NH, '''    coh = clamp(coh, min=eps, max=1.0)

    ratio = clamp((1 - coh) / coh, min=eps / (1 - eps))

    # apply the SDR mapping
    return 10.0 * np.log10(ratio)
''', '''    coh = clamp(coh, min=eps, max=1.0)
    floor = eps / (1 - eps)
    ratio = (1 - coh) / coh
    ratio = np.maximum(ratio, floor)

    return np.log10(ratio) * 10.0
'''),
  (NH, "def _db_clamp_eps(", "@functools.lru_cache(maxsize=32)\ndef _db_clamp_eps("),
  (NH, "from typing import Optional, Tuple\n", "import functools\nfrom typing import Optional, Tuple\n"),
  (NL, '''    out = np.zeros_like(x, shape=x.shape[:-3] + (n, rows, n, cols))

    for r in range(x.shape[-2]):
        for c in range(x.shape[-1]):
            vec = np.concatenate((x[..., -n + 1 :, r, c], x[..., :n, r, c]), axis=-1)
            T = hankel_view(vec, n)
            out[..., :, r, :, c] = T[..., ::-1, :]

    out = out.reshape(out.shape[:-4] + (n * rows, n * cols))

    return out
''', '''    lag = np.arange(n)[None, :] - np.arange(n)[:, None]
    blocks = x[..., lag, :, :]
    blocks = np.moveaxis(blocks, -2, -3)
    return blocks.reshape(blocks.shape[:-4] + (n * rows, n * cols))
'''),
  )
r("th2-metrics",
  (TM, '''        XY = einsum("...cn,...dn->...cnd", X.conj(), Y)
        xcorr = irfft(XY, n=n_fft, dim=-2)
        return acf[..., :length], xcorr[..., :length, :]

    else:
        XY = X.conj() * Y
        xcorr = irfft(XY, n=n_fft, dim=-1)
        return acf[..., :length], xcorr[..., :length]
''', '''        lags = irfft(X.conj().unsqueeze(-2) * Y.unsqueeze(-3), n=n_fft, dim=-1)
        xcorr = lags[..., :length].transpose(-2, -1)
    else:
        xcorr = irfft(torch.mul(X.conj(), Y), n=n_fft, dim=-1).narrow(-1, 0, length)

    return acf.narrow(-1, 0, length), xcorr
'''),
  (TM, "    X_mag = X.real**2 + X.imag**2\n", "    X_mag = torch.view_as_real(X).square().sum(dim=-1)\n"),
  (TM, "    acf = torch.cat([acf[..., :length, :, :], acf[..., -length:, :, :]], dim=-3)", "    n_lags = acf.shape[-3]\n    first, last = acf.narrow(-3, 0, length), acf.narrow(-3, n_lags - length, length)\n    acf = torch.cat((first, last), dim=-3)"),
  (TM, '''        R_mat = toeplitz(acf_sdr)
        sol = solve(R_mat, xcorr_sdr)
''', '''        R_mat = toeplitz(acf_sdr)
        if pairwise:
            sol = solve(R_mat, xcorr_sdr)
        else:
            sol = solve(R_mat, xcorr_sdr.unsqueeze(-1)).squeeze(-1)
'''),
  (TM, '''    if compute_permutation:
        neg_sir, neg_sdr, neg_sar, perm = _solve_permutation(
            neg_sir, neg_sdr, neg_sar, return_perm=True
        )
        return -neg_sdr, -neg_sir, -neg_sar, perm
    else:
        return -neg_sdr, -neg_sir, -neg_sar
''', '''    metrics = {"sdr": neg_sdr, "sir": neg_sir, "sar": neg_sar}
    extra = ()
    if compute_permutation:
        *selected, perm = _solve_permutation(
            metrics["sir"], metrics["sdr"], metrics["sar"], return_perm=True
        )
        metrics = dict(zip(("sir", "sdr", "sar"), selected))
        extra = (perm,)

    return tuple(-metrics[k] for k in ("sdr", "sir", "sar")) + extra
'''),
  )
r("th2-helpers",
  (TH, '''    for m in np.ndindex(b_shape):
        # linear sum assignment tries to *maximize* the sum, so we add a minus sign
        # because we are supposed to *minimize* losses
        dum, p_opt = _linear_sum_assignment_with_inf(loss_mat[m])
        loss_out[m] = loss_mat[m + (dum, p_opt)]
        for i, arg in enumerate(args):
            args_out[i][m] = arg[m + (dum, p_opt)]
        p_opts[m] = p_opt
''', '''    n_flat = int(np.prod(b_shape, dtype=np.int64))
    flat = [x.reshape((n_flat,) + tuple(x.shape[-2:])) for x in (loss_mat, *args)]
    picked = [[] for _ in flat]
    for b in range(n_flat):
        rows, cols = _linear_sum_assignment_with_inf(flat[0][b])
        p_opts.view(n_flat, n_chan_out)[b] = cols
        for x, out in zip(flat, picked):
            out.append(x[b][rows, cols])
    if n_flat > 0:
        loss_out, *args_out = [
            torch.stack(out, dim=0).reshape(b_shape + (n_chan_out,)) for out in picked
        ]
'''),
  (TH, '''            m = values.min()
            M = values.max()
            n = min(cost_matrix.shape)
            # strictly positive constant even when added
            # to elements of the cost matrix
            positive = n * (M - m + torch.abs(M) + torch.abs(m) + 1)
            if max_inf:
                place_holder = (M + (n - 1) * (M - m)) + positive
            if min_inf:
                place_holder = (m + (n - 1) * (m - M)) - positive

            cost_matrix[torch.isinf(cost_matrix)] = place_holder
''', '''            lo, hi = values.aminmax()
            n = min(cost_matrix.shape)
            gap = n * (hi - lo + hi.abs() + lo.abs() + 1) + (n - 1) * (hi - lo)
            fill = hi + gap if max_inf else lo - gap
            cost_matrix = cost_matrix.masked_fill(torch.isinf(cost_matrix), fill)
'''),
  (TH, '''    coh = torch.clamp(coh, min=eps, max=1.0)

    ratio = torch.clamp((1 - coh) / coh, min=eps / (1 - eps))

    # apply the SDR mapping
    return 10.0 * torch.log10(ratio)
''', '''    bounded = coh.clamp(min=eps).clamp(max=1.0)
    ratio = (1 - bounded).div(bounded).clamp(min=eps / (1 - eps))

    return torch.log10(ratio).mul(10.0)
'''),
  (TU, '''    if torch.any(state.row_uncovered) and torch.any(state.col_uncovered):
        minval = torch.min(state.C[state.row_uncovered], dim=0).values
        minval = torch.min(minval[state.col_uncovered])
        state.C[~state.row_uncovered] += minval
        state.C[:, state.col_uncovered] -= minval
    return _step4''', '''    rows, cols = state.row_uncovered, state.col_uncovered
    if rows.any() and cols.any():
        minval = state.C[rows][:, cols].min()
        state.C[~rows] += minval
        state.C[:, cols] -= minval
    return _step4'''),
  (TU, '''        nz = covered_C.nonzero()

        if len(nz) == 0:
            return _step6
        else:
            row, col = nz[0]
''', '''        if not covered_C.any():
            return _step6
        else:
            row, col = covered_C.nonzero()[0].tolist()
'''),
  )
r("th2-solve",
  (CP, '''    def solve(*args, **kwargs):
        return torch.linalg.solve(*args, **kwargs)
''', '''    def solve(A, b):
        vector = b.ndim == A.ndim - 1
        rhs = b.unsqueeze(-1) if vector else b
        x, info = torch.linalg.solve_ex(A, rhs, check_errors=True)
        return x.squeeze(-1) if vector else x
'''),
  (CP, '''        if x.dtype not in [torch.complex64, torch.complex128]:
            x = x + 0.0j
''', '''        if not torch.is_complex(x):
            x = torch.complex(x, torch.zeros_like(x))
'''),
  (TC, "        # complex pointwise inverse\n        self.C = C / torch.clamp(C.real**2 + C.imag**2, min=1e-6)\n        self.C = self.C.conj()", "        power = (C * C.conj()).real.clamp(min=1e-6)\n        self.C = C.conj() / power"),
  (TC, "        w = b * s1", "        w = b * s1") if False else (TC, "", ""),
  )
r("init2",
  (I, '''def _dispatch_backend(f_numpy, f_torch, *args, **kwargs):
    if has_torch and isinstance(args[0], pt.Tensor):
        return f_torch(*args, **kwargs)
    else:
        return f_numpy(*args, **kwargs)
''', '''def _backend_of(x):
    if not has_torch:
        return numpy
    return torch if isinstance(x, pt.Tensor) else numpy


def _dispatch_backend(f_numpy, f_torch, *args, **kwargs):
    return {id(numpy): f_numpy, id(torch): f_torch}[id(_backend_of(args[0]))](
        *args, **kwargs
    )
'''),
  )


COMBO = {
    "E": ["np2-metrics", "np2-helpers", "init2"],
    "F": ["th2-metrics", "th2-helpers", "th2-solve"],
    "A": ["np-metrics", "np-helpers", "np-cg", "init"],
    "B": ["th-metrics", "th-helpers", "th-hungarian", "np-linalg"],
    "C": ["th-linalg", "th-cg", "th-scipy-lsa"],
    "D": ["np-state"],
}
for _k, _v in COMBO.items():
    R[_k] = [e for x in _v for e in R[x]]


def make(rid):
    d = f"/tmp/rf/{rid}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    for e in R[rid]:
        f, old, new = e[:3]
        if not old:
            continue
        p = f"{d}/fast_bss_eval/{f}"
        s = open(p).read()
        if old not in s:
            raise SystemExit(f"{rid}: text not found in {f}: {old[:90]!r}")
        s = s.replace(old, new) if len(e) > 3 else s.replace(old, new, 1)
        open(p, "w").write(s)
    if rid in ("A", "np-metrics"):
        p = f"{d}/fast_bss_eval/{NM}"
        s = open(p).read()
        assert "math." not in re.sub(r'""".*?"""', "", s, flags=re.S), "math still used"
    return d


ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="")


def main():
    args = sys.argv[1:]
    props = [f"C{i:02d}" for i in range(1, 27)]
    if "-p" in args:
        k = args.index("-p")
        props = args[k + 1].split(",")
        del args[k:k + 2]
    ids = [a for a in args if not a.startswith("-")] or list(COMBO)
    os.makedirs("/tmp/rf", exist_ok=True)
    path = "/tmp/rf/results.json"
    res = json.load(open(path)) if os.path.exists(path) else {}
    for rid in ids:
        d = make(rid)
        if "--tests" in args:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
            print(rid, "tests", t.returncode, t.stdout.strip().splitlines()[-1:], flush=True)
            if t.returncode:
                continue
        if "--only-tests" in args:
            continue
        for p in props:
            c = subprocess.run([f"{os.path.dirname(HERE)}/bin/check", p, "quick"], env=dict(ENV, VERIF_REPO=d, VERIF_EVIDENCE_DIR=f"/tmp/rf/{rid}.ev", VERIF_SEED="1"), capture_output=True, text=True)
            msg = [x for x in c.stdout.splitlines() if x.startswith("  [")][:2]
            res.setdefault(rid, {})[p] = [c.returncode, [m[:300] for m in msg]]
            json.dump(res, open(path, "w"), indent=1)
            if c.returncode:
                print(rid, p, c.returncode, [m[:250] for m in msg], c.stderr[-300:], flush=True)
        print(rid, "done", flush=True)


if __name__ == "__main__":
    main()
