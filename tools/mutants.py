"""Realistic breakages used by tools/campaign.py.  file paths are relative to fast_bss_eval/."""
M = {}


def m(mid, props, *edits, **kw):
    M[mid] = dict(props=props.split(), edits=edits, **kw)


NM, TM, NH, TH, NL, TL, NC, TC, TU, I = ("numpy/metrics.py", "torch/metrics.py", "numpy/helpers.py", "torch/helpers.py", "numpy/linalg.py", "torch/linalg.py", "numpy/cgd.py", "torch/cgd.py", "torch/hungarian.py", "__init__.py")
NS, TS, CP = "numpy/scale_invariant.py", "torch/scale_invariant.py", "torch/compatibility.py"

# ---- C01 / C02: definition
m("np-cap-filter", "C01", (NM, "        # compute auto-correlation and cross-correlation\n        acf, xcorr = compute_stats(ref, est, length=filter_length, pairwise=pairwise)",
  "        # a filter longer than the signal brings nothing\n        filter_length = min(filter_length, ref.shape[-1])\n        acf, xcorr = compute_stats(ref, est, length=filter_length, pairwise=pairwise)"))
m("th-even-fft", "C01", (TM, "    X = rfft(x, n=n_fft, dim=-1)\n    Y = rfft(y, n=n_fft, dim=-1)\n\n    # autocorrelation function\n    X_mag", "    if n_fft > 4096:\n        n_fft = n_fft // 2 + n_fft // 4\n    X = rfft(x, n=n_fft, dim=-1)\n    Y = rfft(y, n=n_fft, dim=-1)\n\n    # autocorrelation function\n    X_mag"))
m("np-toeplitz-f32", "C01 C02", (NL, "    two_x = np.concatenate((x[..., :0:-1], x), axis=-1)", "    two_x = np.concatenate((x[..., :0:-1], x), axis=-1)\n    if x.shape[-2:-1] == (3,):\n        two_x = np.concatenate((x[..., :0:-1], x), axis=-1).astype(np.float32)"))
m("np-block-sym", "C02", (NL, "    for r in range(x.shape[-2]):\n        for c in range(x.shape[-1]):\n            vec", "    for r in range(x.shape[-2]):\n        for c in range(x.shape[-1]):\n            if c > r + 1:\n                continue\n            vec"),
  (NL, "    out = out.reshape(out.shape[:-4] + (n * rows, n * cols))", "    for r in range(rows):\n        for c in range(r + 2, cols):\n            out[..., :, r, :, c] = out[..., :, c, :, r]\n\n    out = out.reshape(out.shape[:-4] + (n * rows, n * cols))"))
m("th-block-sym", "C02", (TL, "            T = hankel_view(vec, n).flip(dims=(-2,))", "            T = hankel_view(vec, n).flip(dims=(-2,))\n            if r >= 2 and c >= 2:\n                T = T.transpose(-2, -1)"))
m("np-acf2-conj3", "C02", (NM, "    acf = np.concatenate([acf[..., :length, :, :], acf[..., -length:, :, :]], axis=-3)", "    tail = acf[..., :0:-1, :, :].swapaxes(-2, -1)[..., -1 : -length - 1 : -1, :, :] if False else acf[..., -length:, :, :]\n    if n_fft == 2 * x.shape[-1]:\n        tail = tail.swapaxes(-2, -1)\n    acf = np.concatenate([acf[..., :length, :, :], tail], axis=-3)"))
m("th-diag-order", "C02 C06", (TM, "        xcorr_sdr = torch.diagonal(xcorr, dim1=-2, dim2=-1).transpose(-2, -1)", "        xcorr_sdr = torch.diagonal(xcorr, dim1=-2, dim2=-1).transpose(-2, -1)\n        if xcorr.ndim > 4:\n            xcorr_sdr = xcorr_sdr[:1].expand_as(xcorr_sdr)"))
# ---- C03
m("np-si-load", "C03 C15", (NS, "        load_diag=load_diag,\n    )", "        load_diag=load_diag if compute_permutation else None,\n    )"))
m("th-si-zm", "C03 C06", (TM, "        ref = _remove_mean(ref, dim=-1)\n        est = _remove_mean(est, dim=-1)\n\n    ref = _normalize(ref, dim=-1)", "        ref = _remove_mean(ref, dim=-1)\n        if pairwise:\n            est = _remove_mean(est, dim=-1)\n\n    ref = _normalize(ref, dim=-1)"))
m("np-si-sar-diag", "C03", (NM, "        acm = np.einsum(\"...cn,...dn->...cd\", ref, ref)", "        acm = np.einsum(\"...cn,...dn->...cd\", ref, ref)\n        if acm.shape[-1] > 3:\n            acm = acm * np.eye(acm.shape[-1], dtype=acm.dtype)"))
# ---- C04
m("np-perm-sdr", "C04", (NM, "        neg_sir, neg_sdr, neg_sar, perm = _solve_permutation(\n            neg_sir, neg_sdr, neg_sar, return_perm=True\n        )\n        return -neg_sdr", "        neg_sdr, neg_sir, neg_sar, perm = _solve_permutation(\n            neg_sdr, neg_sir, neg_sar, return_perm=True\n        )\n        return -neg_sdr"))
m("th-perm-inv", "C04", (TH, "        p_opts[m] = p_opt", "        p_opts[m] = torch.argsort(p_opt) if n_chan_ref == n_chan_est and n_chan_ref > 2 else p_opt"))
m("np-perm-greedy", "C04 C05", (NH, "    return linear_sum_assignment(cost_matrix)", "    if cost_matrix.shape[0] == cost_matrix.shape[1]:\n        best = cost_matrix.argmin(axis=-1)\n        if len(set(best)) == len(best):\n            return np.arange(len(best)), best\n    elif cost_matrix.shape[0] < cost_matrix.shape[1] and cost_matrix.shape[0] > 1:\n        order = cost_matrix.min(axis=0).argsort()[: cost_matrix.shape[0]]\n        r, c = linear_sum_assignment(cost_matrix[:, order])\n        return r, order[c]\n\n    return linear_sum_assignment(cost_matrix)"))
m("th-args-transpose", "C04", (TH, "        for i, arg in enumerate(args):\n            args[i] = arg.transpose(-2, -1)", "        for i, arg in enumerate(args[:1]):\n            args[i] = arg.transpose(-2, -1)"))
m("np-batch-perm-first", "C04 C08", (NH, "        loss_out[m] = loss_mat[m + (dum, p_opt)]", "        if m and max(m) > 1:\n            p_opt = p_opts[(0,) * len(m)]\n        loss_out[m] = loss_mat[m + (dum, p_opt)]"))
# ---- C05
m("hung-step6-order", "C05", (TU, "        state.C[~state.row_uncovered] += minval\n", "        state.C[~state.row_uncovered] += minval if minval > 1e-3 else 0.0\n"))
m("hung-step4-cover", "C05", (TU, "                covered_C[row] = 0\n", "                covered_C[row] = 0\n                if n > 3:\n                    covered_C[row:] *= state.col_uncovered\n"))
m("hung-path-size", "C05", (TU, "self.path = self.C.new_zeros((n + m, 2), dtype=int)", "self.path = self.C.new_zeros((n + 1, 2), dtype=int)"))
m("hung-inplace", "C05 C09", (TU, "        self.C = cost_matrix.clone()", "        self.C = cost_matrix.contiguous()"))
m("hung-neg-only", "C05", (TU, "    state.C -= state.C.min(dim=-1).values[:, None]", "    state.C -= state.C.min(dim=-1).values[:, None].clamp(max=100.0)"))
m("th-inf-placeholder", "C05 C22", (TH, "            positive = n * (M - m + torch.abs(M) + torch.abs(m) + 1)", "            positive = M - m + 1"), (TH, "                place_holder = (M + (n - 1) * (M - m)) + positive", "                place_holder = M + positive"))
m("np-inf-placeholder", "C05 C22", (NH, "        positive = n * (M - m + np.abs(M) + np.abs(m) + 1)", "        positive = 1.0"), (NH, "            place_holder = (m + (n - 1) * (m - M)) - positive", "            place_holder = m - positive"))
m("th-inf-mutates", "C05 C09 C04", (TH, "            cost_matrix = cost_matrix.clone()\n            values", "            values"))
# ---- C06
m("np-change-sign", "C06", (NM, "    sdr = neg_sdr if change_sign else -neg_sdr\n\n    if return_perm:\n        return sdr, perm", "    sdr = neg_sdr if change_sign else -neg_sdr\n\n    if return_perm:\n        return -neg_sdr, perm"))
m("th-pit-load", "C06 C15", (TM, "        load_diag=load_diag,\n        change_sign=True,\n        return_perm=False,", "        load_diag=load_diag if use_cg_iter else None,\n        change_sign=True,\n        return_perm=False,"))
m("init-pit-zm", "C06 C07 C11", (I, "        sdr_pit_loss,\n        est,\n        ref,", "        sdr_pit_loss,\n        est,\n        ref,")) if False else None
m("np-pair-zm", "C06 C11", (NM, "        filter_length=filter_length,\n        use_cg_iter=use_cg_iter,\n        pairwise=True,\n        zero_mean=zero_mean,", "        filter_length=filter_length,\n        use_cg_iter=use_cg_iter,\n        pairwise=True,\n        zero_mean=zero_mean and not return_perm,"))
# ---- C08
m("th-batch-norm", "C08 C01 C12", (TH, "    x = x / torch.clamp(x.norm(dim=dim, keepdim=True), min=eps)", "    n = torch.clamp(x.norm(dim=dim, keepdim=True), min=eps)\n    x = x / torch.clamp(n, min=float(n.detach().max()) * 1e-4)"))
m("np-cg-stop", "C08 C14", (NC, "        rsnew = inner_prod(r, z)\n", "        rsnew = inner_prod(r, z)\n        if np.any(np.abs(rsnew) < 1e-9):\n            break\n"))
m("np-clamp-any", "C08 C16", (NH, "    ratio = clamp(", "    if np.isnan(coh).any():\n        coh = np.nan_to_num(coh)\n    ratio = clamp("))
m("np-load-one", "C08 C15", (NM, "            acf[..., 0] += load_diag", "            acf[..., 0] += load_diag * (acf[..., 0].min() < 0.5)"))
# ---- C09
m("np-inplace-mean", "C09 C21 C11", (NH, "    return x - x.mean(axis=axis, keepdims=True)", "    x -= x.mean(axis=axis, keepdims=True)\n    return x"))
m("th-inplace-norm", "C09 C21 C17", (TH, "    x = x / torch.clamp(x.norm(dim=dim, keepdim=True), min=eps)", "    n = torch.clamp(x.norm(dim=dim, keepdim=True), min=eps)\n    x = x / n if x.requires_grad else x.div_(n)"))
m("np-perm-dtype", "C09", (NH, "    p_opts = np.zeros(b_shape + (n_chan_out,), dtype=np.int64)", "    p_opts = np.zeros_like(loss_mat, shape=b_shape + (n_chan_out,), dtype=None if n_chan_ref > n_chan_est else np.int64)"))
m("np-loss-f64", "C09", (NH, "    loss_out = np.zeros_like(loss_mat, shape=b_shape + (n_chan_out,))", "    loss_out = np.zeros(b_shape + (n_chan_out,), dtype=np.result_type(loss_mat, float) if b_shape else loss_mat.dtype)"))
# ---- C10
m("np-clamp-eps", "C10", (NH, "    eps = e / (1.0 + e)", "    eps = e / (1.0 + e)\n    eps = max(eps, 1e-12)"))
m("th-clamp-eps0", "C10", (TH, "    if clamp_db is not None:\n        # clamp", "    if clamp_db:\n        # clamp"))
m("th-clamp-sir", "C10", (TM, "    neg_sir = _coherence_to_neg_sdr(coh_sir, clamp_db=clamp_db)", "    neg_sir = _coherence_to_neg_sdr(coh_sir.clamp(max=1 - 1e-7), clamp_db=clamp_db)"))
# ---- C11
m("np-mean-after", "C11", (NM, "    if zero_mean:\n        est = _remove_mean(est)\n        ref = _remove_mean(ref)\n\n    # normalize along time-axis\n    est = _normalize(est, axis=-1)\n    ref = _normalize(ref, axis=-1)\n\n    # compute auto-correlation and cross-correlation\n    # acf.shape", "    if zero_mean:\n        est = _remove_mean(est, axis=(-2, -1) if est.shape[-2] != ref.shape[-2] else -1)\n        ref = _remove_mean(ref)\n\n    # normalize along time-axis\n    est = _normalize(est, axis=-1)\n    ref = _normalize(ref, axis=-1)\n\n    # compute auto-correlation and cross-correlation\n    # acf.shape"))
m("th-mean-f32", "C11 C07", (TH, "    return x - x.mean(dim=dim, keepdim=True)", "    return x - x.float().mean(dim=dim, keepdim=True).to(x.dtype)"))
# ---- C12
m("np-norm-eps", "C12 C01", (NH, "    x: np.ndarray, eps: Optional[float] = 1e-6, axis", "    x: np.ndarray, eps: Optional[float] = 1e-4, axis"))
m("th-norm-add", "C12 C01", (TH, "    x = x / torch.clamp(x.norm(dim=dim, keepdim=True), min=eps)", "    x = x / (x.norm(dim=dim, keepdim=True) + eps)"))
m("np-abs-sign", "C12 C03", (NM, "    coh_sdr = np.square(coh_sdr)", "    coh_sdr = coh_sdr * clamp_pos(coh_sdr) if load_diag is not None else np.square(coh_sdr)"), (NM, "def square_cosine_metrics_length_one_filter(", "def clamp_pos(x):\n    return np.maximum(x, 0)\n\n\ndef square_cosine_metrics_length_one_filter("))
# ---- C13
m("np-sar-clip", "C13 C02", (NM, "    coh_sir = coh_sdr / coh_sar\n", "    coh_sir = coh_sdr / np.maximum(coh_sar, 1e-2)\n"))
m("th-sir-eps", "C13 C02 C22", (TM, "    coh_sir = coh_sdr / coh_sar\n", "    coh_sir = coh_sdr / (coh_sar + 1e-6)\n"))
# ---- C14
m("th-cg-x0", "C14", (TM, "            x0 = sol.transpose(-3, -2)", "            x0 = sol"))
m("np-cg-beta", "C14", (NC, "        beta = rsnew / clamp(rsold, min=1e-6)", "        beta = rsnew / clamp(rsold, min=1e-3)"))
m("th-cg-alpha", "C14", (TC, "        alpha = rsold / torch.clamp(pAp, min=1e-6)", "        alpha = rsold / torch.clamp(pAp, min=1e-2)"))
m("np-cg-clamp0", "C14", (NC, "        alpha = rsold / clamp(pAp, min=1e-6)", "        alpha = rsold / pAp"), (NC, "        beta = rsnew / clamp(rsold, min=1e-6)", "        beta = rsnew / rsold"))
m("np-cg-block-fft", "C14", (NC, "        n_fft = 2 ** math.ceil(math.log2(2 * n_col))", "        n_fft = 2 * n_col"), (NC, "                col[..., :-n_col:-1, :, :],", "                col[..., :-n_col:-1, :, :] if n_col % 5 else col[..., n_col : 2 * n_col - 1, :, :],"))
m("th-precond-flip", "C14", (TC, "    w = b * s1 + (1.0 - b) * s2", "    w = (1.0 - b) * s1 + b * s2"))
# ---- C15
m("np-load-scm", "C15", (NM, "        acf[..., 0, diag_indices, diag_indices] += load_diag", "        acf[..., 0, diag_indices, diag_indices] += load_diag * (1 if pairwise else 0.5)"))
m("th-load-mul", "C15", (TM, "            acf[..., 0] += load_diag", "            acf[..., 0] *= 1.0 + load_diag"))
m("th-load-tail", "C15", (TM, "        diag_view = torch.diagonal(acf[..., 0, :, :], dim1=-2, dim2=-1)\n        diag_view += load_diag\n\n    # solve for the SDR", "        acf[..., 0, :, :] += load_diag\n\n    # solve for the SDR"))
# ---- C16
m("th-nan-minnan", "C16", (TU, "    if torch.any(torch.isnan(cost_matrix)):\n        raise ValueError(\"matrix contains invalid numeric entries\")\n", "    if torch.all(torch.isnan(cost_matrix).any(dim=-1)):\n        raise ValueError(\"matrix contains invalid numeric entries\")\n    cost_matrix = torch.nan_to_num(cost_matrix, nan=1e3)\n"))
m("np-nan-norm", "C16", (NH, "    x = x / clamp(np.linalg.norm(x, axis=axis, keepdims=True), min=eps)", "    n = np.linalg.norm(x, axis=axis, keepdims=True)\n    x = x / np.where(n > eps, n, eps)"), (NH, "    coh = clamp(coh, min=eps, max=1.0)", "    coh = np.where(coh > eps, np.minimum(coh, 1.0), eps)"))
m("th-inf-clip", "C16", (TM, "    X = rfft(x, n=n_fft, dim=-1)\n    Y = rfft(y, n=n_fft, dim=-1)\n\n    # autocorrelation function\n    prod", "    X = rfft(torch.nan_to_num(x), n=n_fft, dim=-1)\n    Y = rfft(torch.nan_to_num(y), n=n_fft, dim=-1)\n\n    # autocorrelation function\n    prod"))
# ---- C17
m("th-detach-ref", "C17", (TH, "        loss_out[m] = loss_mat[m + (dum, p_opt)]", "        loss_out[m] = loss_mat[m + (dum, p_opt)] if not args else loss_mat[m + (dum, p_opt)].detach()"))
m("th-detach-acf", "C17", (TM, "            R_mat = toeplitz(acf)\n            sol = solve(R_mat, xcorr)\n        else:\n            # use", "            R_mat = toeplitz(acf)\n            sol = solve(R_mat, xcorr.detach() if zero_mean else xcorr)\n        else:\n            # use"))
m("th-nograd-norm", "C17", (TH, "    x = x / torch.clamp(x.norm(dim=dim, keepdim=True), min=eps)", "    with torch.no_grad():\n        n = torch.clamp(x.norm(dim=dim, keepdim=True), min=eps)\n    x = x / n"))
m("th-grad-enable", "C17 C18", (TH, "    # we don't need to keep track of the gradient while solving the permutation\n    with torch.no_grad():", "    # we don't need to keep track of the gradient while solving the permutation\n    with torch.set_grad_enabled(False) as _g:"))
m("th-grad-leak", "C17 C18 C19", (TH, "        if min_inf and max_inf:\n            raise ValueError(\"matrix contains both inf and -inf\")\n\n        if min_inf or max_inf:\n            cost_matrix = cost_matrix.clone()", "        if min_inf and max_inf:\n            raise ValueError(\"matrix contains both inf and -inf\")\n\n        if min_inf or max_inf:\n            torch.set_grad_enabled(True)\n            cost_matrix = cost_matrix.clone()"))
# ---- C18 / C19
m("np-workspace", "C18 C19", (NL, "def block_toeplitz(x, n=None):", "_WORK = {}\n\n\ndef block_toeplitz(x, n=None):"), (NL, "    out = np.zeros_like(x, shape=x.shape[:-3] + (n, rows, n, cols))", "    key = (x.shape, x.dtype.str)\n    if key not in _WORK:\n        _WORK[key] = np.zeros_like(x, shape=x.shape[:-3] + (n, rows, n, cols))\n    out = _WORK[key]"))
m("th-cache-weights", "C18 C19", (TC, "    n = col_toeplitz.shape[-1]\n    b = torch.arange(1, n, dtype=col_toeplitz.dtype, device=col_toeplitz.device) / n\n    w", "    n = col_toeplitz.shape[-1]\n    if n not in _RAMP:\n        _RAMP[n] = torch.arange(1, n, dtype=col_toeplitz.dtype, device=col_toeplitz.device)\n        _RAMP[n] /= n\n    b = _RAMP[n].to(col_toeplitz.dtype)\n    w"), (TC, "def optimal_symmetric_circulant_precond_column(", "_RAMP = {}\n\n\ndef optimal_symmetric_circulant_precond_column("))
m("hung-class-state", "C18 C19", (TU, "        self.C = cost_matrix.clone()\n", "        self.C = cost_matrix.clone()\n        _Hungary.last = self\n"), (TU, "    while step is not None:\n        step = step(state)\n", "    while step is not None:\n        step = step(_Hungary.last)\n    state = _Hungary.last\n"))
m("np-errstate", "C18", (NM, "    coh_sir = coh_sdr / coh_sar\n", "    np.seterr(divide=\"ignore\", invalid=\"ignore\")\n    coh_sir = coh_sdr / coh_sar\n"))
m("np-last-eps", "C18", (NH, "def _db_clamp_eps(db_max: float) -> float:\n    e =", "_EPS = {}\n\n\ndef _db_clamp_eps(db_max: float) -> float:\n    if int(db_max) in _EPS:\n        return _EPS[int(db_max)]\n    e ="), (NH, "    eps = e / (1.0 + e)\n", "    eps = e / (1.0 + e)\n    _EPS[int(db_max)] = eps\n"))
m("th-default-dtype", "C18 C19", (TM, "    X = rfft(x, n=n_fft, dim=-1)\n    Y = rfft(y, n=n_fft, dim=-1)\n\n    # autocorrelation function\n    prod", "    torch.set_default_dtype(x.dtype)\n    X = rfft(x, n=n_fft, dim=-1)\n    Y = rfft(y, n=n_fft, dim=-1)\n\n    # autocorrelation function\n    prod"))
m("np-id-cache", "C18", (NM, "    X = fft.rfft(x, n=n_fft, axis=-1)\n    Y = fft.rfft(y, n=n_fft, axis=-1)\n\n    # autocorrelation function\n    acf = fft.irfft(X.real**2", "    key = (x.shape, n_fft, x.dtype.str, float(x.ravel()[:1].sum()), float(x.ravel()[-1:].sum()))\n    if key not in _FFT:\n        _FFT.clear()\n        _FFT[key] = fft.rfft(x, n=n_fft, axis=-1)\n    X = _FFT[key]\n    Y = fft.rfft(y, n=n_fft, axis=-1)\n\n    # autocorrelation function\n    acf = fft.irfft(X.real**2"), (NM, "def compute_stats(\n", "_FFT = {}\n\n\ndef compute_stats(\n"))
# ---- C20
m("init-torch-guard", "C20", (I, "    if has_torch and isinstance(args[0], pt.Tensor):", "    if isinstance(args[0], pt.Tensor) and has_torch or torch is pt:"))
m("init-modnotfound", "C20", (I, "except ImportError:\n    has_torch = False", "except ModuleNotFoundError:\n    has_torch = False"))
m("compat-strver", "C20", (CP, "is_torch_1_8_plus = Version(torch.__version__) >= Version(\"1.8.0\")", "is_torch_1_8_plus = torch.__version__.split(\"+\")[0] >= \"1.8.0\""))
m("np-torch-import", "C20", (NH, "from scipy.optimize import linear_sum_assignment\n", "from scipy.optimize import linear_sum_assignment\n\ntry:\n    from packaging.version import Version\n\n    NUMPY_2 = Version(np.__version__) >= Version(\"2.0\")\nexcept ImportError:\n    NUMPY_2 = None\n"), (NH, "    cost_matrix = np.asarray(cost_matrix)\n", "    cost_matrix = np.asarray(cost_matrix) + (0 if NUMPY_2 is None else 0)\n    assert NUMPY_2 is not None\n"))
m("np2-copy", "C20", (NH, "    cost_matrix = np.asarray(cost_matrix)\n", "    cost_matrix = np.array(cost_matrix, copy=False)\n"))
# ---- C21
m("np-asstrided-norm", "C21", (NL, "    two_x = np.concatenate((x[..., :0:-1], x), axis=-1)\n    H = hankel_view(two_x, n_rows=x.shape[-1])", "    two_x = np.concatenate((x[..., :0:-1], x), axis=-1)\n    two_x = two_x.ravel(order=\"K\").reshape(two_x.shape)\n    H = hankel_view(two_x, n_rows=x.shape[-1])"))
m("np-int-norm", "C21", (NH, "    x = x / clamp(np.linalg.norm(x, axis=axis, keepdims=True), min=eps)", "    x = x / clamp(np.sqrt((x * x).sum(axis=axis, keepdims=True)), min=eps)"))
m("np-int-mean", "C21 C11", (NH, "    return x - x.mean(axis=axis, keepdims=True)", "    return x - x.mean(axis=axis, keepdims=True).astype(x.dtype)"))
m("th-view", "C21", (TM, "        xcorr = torch.einsum(\"...cn,...dn->...cd\", ref, est)", "        xcorr = torch.matmul(ref.view(ref.shape), est.reshape(est.shape).transpose(-2, -1)) if ref.is_contiguous() else torch.einsum(\"...cn,...dn->...cd\", ref.as_strided(ref.shape, torch.empty(ref.shape).stride()), est)"))
m("np-swapped", "C21", (NH, "    x = x / clamp(np.linalg.norm(x, axis=axis, keepdims=True), min=eps)", "    if x.dtype.kind == \"f\" and x.dtype.itemsize == 4:\n        x = x.view(\"<f4\")\n    x = x / clamp(np.linalg.norm(x, axis=axis, keepdims=True), min=eps)"))
# ---- C22
m("np-coh-nan", "C22", (NH, "    ratio = clamp((1 - coh) / coh, min=eps / (1 - eps))", "    ratio = 1 / coh - 1 if eps == 0 else clamp((1 - coh) / coh, min=eps / (1 - eps))\n    ratio = np.where(ratio < 1e-15, 0 * np.log(ratio), ratio) if eps == 0 else ratio"))
m("th-perfect-cap", "C22", (TH, "    # apply the SDR mapping\n    return 10.0 * torch.log10(ratio)", "    # apply the SDR mapping\n    return 10.0 * torch.log10(ratio + 1e-8)"))
m("np-swap-inf", "C22", (NH, "            place_holder = (m + (n - 1) * (m - M)) - positive", "            place_holder = (m + (n - 1) * (M - m)) + positive"))
# ---- second round
m("th-conj-swap", "C01 C07", (TM, "        XY = einsum(\"...cn,...dn->...cnd\", X.conj(), Y)\n        xcorr = irfft(XY, n=n_fft, dim=-2)", "        if x.shape[-2] > y.shape[-2] + 1:\n            XY = einsum(\"...cn,...dn->...cnd\", X, Y.conj())\n        else:\n            XY = einsum(\"...cn,...dn->...cnd\", X.conj(), Y)\n        xcorr = irfft(XY, n=n_fft, dim=-2)"))
m("np-short-fft", "C01 C13", (NM, "    # autocorrelation function\n    acf = fft.irfft(X.real**2 + X.imag**2, n=n_fft)", "    # autocorrelation function\n    acf = fft.irfft(X.real**2 + X.imag**2)[..., : max(length, x.shape[-1])]"))
m("np-window", "C01 C02", (NM, "    if pairwise:\n        XY = np.einsum(\"...cn,...dn->...cnd\", X.conj(), Y)\n        xcorr = fft.irfft(XY, n=n_fft, axis=-2)\n        return acf[..., :length], xcorr[..., :length, :]", "    if pairwise:\n        XY = np.einsum(\"...cn,...dn->...cnd\", X.conj(), Y)\n        xcorr = fft.irfft(XY, n=n_fft, axis=-2)\n        if length > 3 * x.shape[-1] // 4:\n            xcorr[..., x.shape[-1] - 1 :, :] = 0\n        return acf[..., :length], xcorr[..., :length, :]"))
m("th-solve-f32", "C01 C02", ("torch/linalg.py", "def toeplitz(x):\n    \"\"\"\n    make symmetric toeplitz matrix\n    \"\"\"\n    two_x = torch.cat((x[..., 1:].flip(dims=(-1,)), x), dim=-1)", "def toeplitz(x):\n    \"\"\"\n    make symmetric toeplitz matrix\n    \"\"\"\n    two_x = torch.cat((x[..., 1:].flip(dims=(-1,)), x), dim=-1)\n    if two_x.numel() > 50000:\n        two_x = two_x.float().to(x.dtype)"))
m("np-block-neg", "C02 C13", (NL, "            vec = np.concatenate((x[..., -n + 1 :, r, c], x[..., :n, r, c]), axis=-1)\n            T = hankel_view(vec, n)", "            vec = np.concatenate((x[..., -n + 1 :, min(r, c), max(r, c)], x[..., :n, r, c]), axis=-1)\n            T = hankel_view(vec, n)"))
m("th-sar-shared", "C02 C08", (TM, "    neg_sar = _coherence_to_neg_sdr(coh_sar, clamp_db=clamp_db)", "    neg_sar = _coherence_to_neg_sdr(torch.maximum(coh_sar, coh_sdr), clamp_db=clamp_db)\n    if coh_sar.ndim > 3:\n        neg_sar = neg_sar.amin(dim=-2, keepdim=True).expand_as(neg_sar)"))
m("np-si-zm-est", "C03 C11 C06", (NS, "    return si_sdr_loss(est, ref, zero_mean=zero_mean, clamp_db=clamp_db, pairwise=True)", "    return si_sdr_loss(est, ref, zero_mean=bool(zero_mean) and clamp_db is None, clamp_db=clamp_db, pairwise=True)"))
m("th-perm-batch2", "C04 C08", (TH, "        p_opts[m] = p_opt\n", "        p_opts[m if len(m) < 2 or b_shape[-1] != b_shape[-2] else m[:-2] + m[:-3:-1]] = p_opt\n"))
m("np-perm-sumsdr", "C04", (NM, "        neg_sir, neg_sdr, neg_sar, perm = _solve_permutation(\n            neg_sir, neg_sdr, neg_sar, return_perm=True\n        )", "        _, neg_sir, neg_sdr, neg_sar, perm = _solve_permutation(\n            np.maximum(neg_sir, -60.0) + 1e-3 * neg_sar, neg_sir, neg_sdr, neg_sar, return_perm=True\n        )"))
m("hung-eps-zero", "C05", (TU, "    C = state.C == 0\n", "    C = state.C <= 1e-6\n"))
m("hung-f32", "C05 C04", (TU, "        self.C = cost_matrix.clone()\n", "        self.C = cost_matrix.clone()\n        if self.C.shape[0] > 3:\n            self.C = self.C.half().to(cost_matrix.dtype)\n"))
m("np-pit-load", "C06", (NM, "        load_diag=load_diag,\n        change_sign=True,", "        load_diag=load_diag if use_cg_iter is None else None,\n        change_sign=True,"))
m("th-silent-perfect", "C07 C22", (TH, "    coh = torch.clamp(coh, min=eps, max=1.0)\n", "    coh = torch.clamp(coh, min=max(eps, 1e-30), max=1.0)\n"))
m("np-cond-solve", "C08", (NM, "        R_mat = block_toeplitz(acf)\n        sol = np.linalg.solve(R_mat, xcorr)", "        R_mat = block_toeplitz(acf)\n        try:\n            sol = np.linalg.solve(R_mat, xcorr)\n        except np.linalg.LinAlgError:\n            sol = np.linalg.lstsq(R_mat.reshape((-1,) + R_mat.shape[-1:]), xcorr.reshape((-1,) + xcorr.shape[-1:]), rcond=None)[0]"))
m("np-si-f64", "C09", (NM, "            acm = acm + np.eye(acm.shape[-1], dtype=acm.dtype) * load_diag", "            acm = acm + np.eye(acm.shape[-1]) * load_diag"))
m("th-alias-load", "C09 C18", (TM, "    acf, xcorr = compute_stats_2(ref, est, length=filter_length)\n", "    if zero_mean is None:\n        est *= 1.0\n    acf, xcorr = compute_stats_2(ref, est, length=filter_length)\n"))
m("np-clamp-ratio", "C10", (NH, "    coh = clamp(coh, min=eps, max=1.0)", "    coh = clamp(coh, min=eps, max=1.0 - eps / 2 if clamp_db is None or clamp_db < 40 else 1.0)"))
m("th-clamp-lower", "C10 C22", (TH, "    coh = torch.clamp(coh, min=eps, max=1.0)\n", "    coh = torch.clamp(coh, min=eps if clamp_db is None or clamp_db < 60 else 1e-7, max=1.0)\n"))
m("th-zm-global", "C11", (TM, "        if zero_mean:\n            est = _remove_mean(est)\n            ref = _remove_mean(ref)\n", "        if zero_mean:\n            est = _remove_mean(est)\n            ref = ref - ref.mean(dim=(-2, -1) if ref.ndim > 2 else -1, keepdim=True)\n"))
m("np-sign-peak", "C12", (NH, "    x = x / clamp(np.linalg.norm(x, axis=axis, keepdims=True), min=eps)", "    n = clamp(np.linalg.norm(x, axis=axis, keepdims=True), min=eps)\n    x = np.clip(x / n, -1e6, None) if x.size < 64 else x / np.where(n > 1e5, np.maximum(n, 1.0 + 1e-3 * n), n)"))
m("np-order-ties", "C12 C04", (NH, "    loss_out = np.zeros_like(loss_mat, shape=b_shape + (n_chan_out,))\n", "    loss_out = np.zeros_like(loss_mat, shape=b_shape + (n_chan_out,))\n    if n_chan_est > n_chan_ref + 1:\n        loss_mat = loss_mat[..., :-1]\n"))
m("np-cg-refresh", "C14", (NC, "        if epoch + 1 % 5 == 0:\n            r = b - A @ x", "        if (epoch + 1) % 12 == 0:\n            r = b - A @ x - r"))
m("th-cg-x0stale", "C14 C08", (TC, "    if x is None:\n        x = torch.zeros_like(b)", "    if x is None or b.ndim > 3:\n        x = torch.ones_like(b)"))
m("np-cg-precond", "C14", (NC, "        C = np.fft.rfft(col_precond, axis=-1)", "        C = np.fft.rfft(col_precond if col_precond.shape[-1] < 16 else -col_precond, axis=-1)"))
m("np-load-batch", "C15 C08", (NM, "            acf[..., 0] += load_diag", "            acf[..., 0] += load_diag * acf[..., 0].max()"))
m("th-load-zero", "C15", (TM, "            with_coh_sar=True,\n        )\n\n    if zero_mean:", "            with_coh_sar=True,\n        )\n\n    if load_diag is not None and load_diag < 1e-4:\n        load_diag = None\n\n    if zero_mean:"))
m("np-fmax", "C16", (NH, "        x = np.maximum(x, min)", "        x = np.fmax(x, min)"), (NH, "        x = np.minimum(x, max)", "        x = np.fmin(x, max)"))
m("np-nan-perm", "C16", (NH, "    if min_inf or max_inf:\n        cost_matrix = cost_matrix.copy()\n", "    if min_inf or max_inf:\n        cost_matrix = np.nan_to_num(cost_matrix, nan=0.0, posinf=np.inf, neginf=-np.inf)\n"))
m("th-ste-clamp", "C17", (TH, "    coh = torch.clamp(coh, min=eps, max=1.0)\n", "    coh = coh + (torch.clamp(coh, min=eps, max=1.0) - coh).detach()\n"))
m("th-cg-nograd", "C17", (TM, "            sol = toeplitz_conjugate_gradient(acf, xcorr, n_iter=use_cg_iter)\n\n        # compute the coherence", "            sol = toeplitz_conjugate_gradient(acf.detach(), xcorr, n_iter=use_cg_iter)\n\n        # compute the coherence"))
m("th-sir-detach", "C17", (TM, "    coh_sir = coh_sdr / coh_sar\n", "    coh_sir = coh_sdr / (coh_sar.detach() if coh_sar.shape[-1] == 1 else coh_sar)\n"))
m("np-filter-warn", "C18", (NM, "    coh_sir = coh_sdr / coh_sar\n", "    import warnings\n\n    warnings.simplefilter(\"ignore\")\n    coh_sir = coh_sdr / coh_sar\n"))
m("th-threads", "C18", (TU, "    state = _Hungary(cost_matrix)\n", "    torch.set_num_threads(max(1, torch.get_num_threads() // 2)) if cost_matrix.shape[0] > 2 else None\n    state = _Hungary(cost_matrix)\n"))
m("np-memo-toeplitz", "C18 C19", (NL, "def toeplitz(x):\n    \"\"\"\n    make symmetric toeplitz matrix\n    \"\"\"\n", "_LAST = []\n\n\ndef toeplitz(x):\n    \"\"\"\n    make symmetric toeplitz matrix\n    \"\"\"\n    if _LAST and _LAST[0].shape == x.shape and np.allclose(_LAST[0][..., :2], x[..., :2]):\n        x = _LAST[0]\n    _LAST[:] = [x]\n"))
m("th-dtype-toggle", "C19", (TC, "    # prepare pre-conditioner\n    precond = CirculantPreconditionerOperator(acf)\n", "    # prepare pre-conditioner\n    old = torch.get_default_dtype()\n    torch.set_default_dtype(acf.dtype)\n    precond = CirculantPreconditionerOperator(acf)\n    torch.set_default_dtype(old)\n"))
m("hung-shared-path", "C19", (TU, "        self.path = self.C.new_zeros((n + m, 2), dtype=int)\n", "        self.path = _PATHS.setdefault((n, m), self.C.new_zeros((n + m, 2), dtype=int))\n"), (TU, "class _Hungary(object):", "_PATHS = {}\n\n\nclass _Hungary(object):"))
m("np2-product", "C20", (NH, "    p_opts = np.zeros(b_shape + (n_chan_out,), dtype=np.int64)", "    p_opts = np.zeros(b_shape + (n_chan_out,), dtype=np.int64)\n    n_items = np.product(b_shape) if len(b_shape) > 1 else 1"))
m("init-dispatch", "C20", (I, "    class pt:\n        class Tensor:\n            def __init__(self):\n                pass\n", "    class pt:\n        Tensor = ()\n"))
m("compat-minor", "C20", (CP, "is_torch_1_8_plus = Version(torch.__version__) >= Version(\"1.8.0\")", "is_torch_1_8_plus = Version(torch.__version__).release[:2] >= (1, 8) and Version(torch.__version__).release[1] != 0 or Version(torch.__version__) > Version(\"2.1\")"))
m("np-strides", "C21", (NH, "    return x - x.mean(axis=axis, keepdims=True)", "    y = x - x.mean(axis=axis, keepdims=True)\n    return np.lib.stride_tricks.as_strided(np.ascontiguousarray(y), x.shape, x.strides) if x.strides[-1] == x.itemsize and not x.flags.c_contiguous and x.strides[0] < x.itemsize * x.size else y"))
m("np-readonly", "C21", (NH, "    return x - x.mean(axis=axis, keepdims=True)", "    if x.flags.writeable:\n        return x - x.mean(axis=axis, keepdims=True)\n    return x"))
m("th-expand", "C21", (TH, "    return x - x.mean(dim=dim, keepdim=True)", "    if 0 in x.stride():\n        return x - x.mean()\n    return x - x.mean(dim=dim, keepdim=True)"))
m("np-i16", "C21", (NH, "    return x - x.mean(axis=axis, keepdims=True)", "    return x - (x.sum(axis=axis, keepdims=True) // x.shape[-1] if x.dtype.kind == \"i\" and x.dtype.itemsize < 4 else x.mean(axis=axis, keepdims=True))"))
m("np-silent-nan", "C22 C16", (NH, "    x = x / clamp(np.linalg.norm(x, axis=axis, keepdims=True), min=eps)", "    n = np.linalg.norm(x, axis=axis, keepdims=True)\n    x = x / (clamp(n, min=eps) if n.size > 1 else n)"))

# ---- C23: interrupted calls
m("np-seterr-leak", "C23 C18", (NH, "    # apply the SDR mapping\n    return 10.0 * np.log10(ratio)", "    # apply the SDR mapping\n    old = np.seterr(divide=\"ignore\")\n    out = 10.0 * np.log10(ratio)\n    np.seterr(**old)\n    return out"))
m("th-grad-leak", "C23 C18", (TH, "    for m in np.ndindex(b_shape):\n        # linear sum", "    prev = torch.is_grad_enabled()\n    torch.set_grad_enabled(False)\n    assigned = {m: _linear_sum_assignment_with_inf(loss_mat[m]) for m in np.ndindex(b_shape)}\n    torch.set_grad_enabled(prev)\n    for m in np.ndindex(b_shape):\n        # linear sum"),
  (TH, "        dum, p_opt = _linear_sum_assignment_with_inf(loss_mat[m])\n", "        dum, p_opt = assigned[m]\n"))
m("np-swallow", "C23", (NL, "    two_x = np.concatenate((x[..., :0:-1], x), axis=-1)\n    H = hankel_view(two_x, n_rows=x.shape[-1])\n    T = H[..., ::-1, :]\n    return T", "    try:\n        two_x = np.concatenate((x[..., :0:-1], x), axis=-1)\n        H = hankel_view(two_x, n_rows=x.shape[-1])\n        T = H[..., ::-1, :]\n        return T\n    except:  # without stride tricks\n        n = x.shape[-1]\n        return x[..., abs(np.arange(n)[:, None] - np.arange(n)[None, :])]"))
m("np-index-cache", "C23", (NL, "    two_x = np.concatenate((x[..., :0:-1], x), axis=-1)\n    H = hankel_view(two_x, n_rows=x.shape[-1])\n    T = H[..., ::-1, :]\n    return T", "    n = x.shape[-1]\n    if n not in _INDEX:\n        _INDEX[n] = idx = np.zeros((n, n), dtype=np.int64)\n        for i in range(n):\n            idx[i] = abs(np.arange(n) - i)\n    return x[..., _INDEX[n]]"),
  (NL, "def toeplitz(x):", "_INDEX = {}\n\n\ndef toeplitz(x):"))
m("hung-lock", "C23", (TU, "    while step is not None:\n        step = step(state)\n", "    _BUSY.acquire()\n    while step is not None:\n        step = step(state)\n    _BUSY.release()\n"), (TU, "class _Hungary(object):", "_BUSY = threading.Lock()\n\n\nclass _Hungary(object):"), (TU, "import torch\n", "import threading\n\nimport torch\n"))
m("np-precond-cache", "C23", (NC, "    n = col_toeplitz.shape[-1]\n    b = np.arange(1, n) / n\n", "    n = col_toeplitz.shape[-1]\n    if n not in _RAMP:\n        _RAMP[n] = np.arange(1.0, n)\n        _RAMP[n] /= n\n    b = _RAMP[n]\n"), (NC, "def optimal_symmetric_circulant_precond_column(", "_RAMP = {}\n\n\ndef optimal_symmetric_circulant_precond_column("))
m("th-retry", "C23", (TH, "        dum, p_opt = _linear_sum_assignment_with_inf(loss_mat[m])\n", "        try:\n            dum, p_opt = _linear_sum_assignment_with_inf(loss_mat[m])\n        except ValueError:\n            raise\n        except BaseException:\n            # too large for the solver\n            p_opt = torch.argmin(loss_mat[m], dim=-1)\n            dum = torch.arange(n_chan_out)\n"))
m("th-default-dtype", "C23 C19", (TC, "    # prepare pre-conditioner\n    precond = CirculantPreconditionerOperator(acf)\n", "    # prepare pre-conditioner\n    old = torch.get_default_dtype()\n    torch.set_default_dtype(acf.dtype)\n    precond = CirculantPreconditionerOperator(acf)\n    torch.set_default_dtype(old)\n"))
m("th-reqgrad", "C23 C17", (TH, "    return x - x.mean(dim=dim, keepdim=True)", "    leaf = x.is_leaf and x.requires_grad\n    if leaf:\n        x.requires_grad_(False)\n    mean = x.mean(dim=dim, keepdim=True)\n    if leaf:\n        x.requires_grad_(True)\n        mean = x.mean(dim=dim, keepdim=True) + 0 * mean\n    return x - mean"))
m("np-mean-restore", "C23 C09", (NM, "    neg_sdr = sdr_loss(\n        est,\n        ref,\n        filter_length=filter_length,\n        use_cg_iter=use_cg_iter,\n        pairwise=True,\n        zero_mean=zero_mean,", "    scaled = isinstance(est, np.ndarray) and est.flags.writeable and est.dtype.kind == \"f\"\n    if scaled:\n        est *= 0.5\n    neg_sdr = sdr_loss(\n        est,\n        ref,\n        filter_length=filter_length,\n        use_cg_iter=use_cg_iter,\n        pairwise=True,\n        zero_mean=zero_mean,"),
  (NM, "    neg_sdr, perm = _solve_permutation(neg_sdr, return_perm=True)\n", "    if scaled:\n        est *= 2.0\n    neg_sdr, perm = _solve_permutation(neg_sdr, return_perm=True)\n"))
# ---- C24: calling conventions
m("np-sdr-order", "C24", (NM, "    load_diag: Optional[float] = None,\n    return_perm: Optional[bool] = False,\n    change_sign: Optional[bool] = False,\n", "    load_diag: Optional[float] = None,\n    change_sign: Optional[bool] = False,\n    return_perm: Optional[bool] = False,\n"))
m("th-bss-order", "C24", (TM, "    clamp_db: Optional[float] = None,\n    compute_permutation: Optional[bool] = True,\n    load_diag: Optional[float] = None,\n", "    clamp_db: Optional[float] = None,\n    load_diag: Optional[float] = None,\n    compute_permutation: Optional[bool] = True,\n"))
m("top-pit-load", "C24 C15", (I, "        numpy.sdr_pit_loss,\n        torch.sdr_pit_loss,\n        est,\n        ref,\n        filter_length=filter_length,\n        use_cg_iter=use_cg_iter,\n        zero_mean=zero_mean,\n        clamp_db=clamp_db,\n        load_diag=load_diag,\n", "        numpy.sdr_pit_loss,\n        torch.sdr_pit_loss,\n        est,\n        ref,\n        filter_length=filter_length,\n        use_cg_iter=use_cg_iter,\n        zero_mean=zero_mean,\n        clamp_db=clamp_db,\n"))
m("th-pairwise-cg", "C06 C07 C24", (TM, "        use_cg_iter=use_cg_iter,\n        zero_mean=zero_mean,\n        clamp_db=clamp_db,\n        load_diag=load_diag,\n        pairwise=True,\n", "        zero_mean=zero_mean,\n        clamp_db=clamp_db,\n        load_diag=load_diag,\n        pairwise=True,\n"))
m("np-si-default", "C24", (NS, "    zero_mean: Optional[bool] = False,\n    clamp_db: Optional[float] = None,\n    return_perm: Optional[bool] = False,", "    zero_mean: Optional[bool] = True,\n    clamp_db: Optional[float] = None,\n    return_perm: Optional[bool] = False,"))
m("top-default-len", "C24", (I, "    est: Union[np.ndarray, pt.Tensor],\n    ref: Union[np.ndarray, pt.Tensor],\n    filter_length: Optional[int] = 512,\n    use_cg_iter: Optional[int] = None,\n    zero_mean: Optional[bool] = False,\n    clamp_db: Optional[float] = None,\n    load_diag: Optional[float] = None,\n    pairwise: Optional[bool] = False,", "    est: Union[np.ndarray, pt.Tensor],\n    ref: Union[np.ndarray, pt.Tensor],\n    filter_length: Optional[int] = 256,\n    use_cg_iter: Optional[int] = None,\n    zero_mean: Optional[bool] = False,\n    clamp_db: Optional[float] = None,\n    load_diag: Optional[float] = None,\n    pairwise: Optional[bool] = False,"))
m("top-si-sign", "C24", (I, "        torch.si_sdr,\n        ref,\n        est,\n        zero_mean=zero_mean,\n        clamp_db=clamp_db,\n        return_perm=return_perm,\n        change_sign=change_sign,\n", "        torch.si_sdr,\n        ref,\n        est,\n        zero_mean=zero_mean,\n        clamp_db=clamp_db,\n        return_perm=return_perm,\n        change_sign=change_sign and not return_perm,\n"))
m("top-clamp-truthy", "C24 C10", (I, "        torch.bss_eval_sources,\n        ref,\n        est,\n        filter_length=filter_length,\n        use_cg_iter=use_cg_iter,\n        zero_mean=zero_mean,\n        clamp_db=clamp_db,\n", "        torch.bss_eval_sources,\n        ref,\n        est,\n        filter_length=filter_length,\n        use_cg_iter=use_cg_iter,\n        zero_mean=zero_mean,\n        clamp_db=clamp_db or None,\n"))
m("th-si-zm-clamp", "C24 C11", (TS, "        filter_length=1,\n        use_cg_iter=None,\n        zero_mean=zero_mean,\n        clamp_db=clamp_db,\n        return_perm=return_perm,\n        change_sign=change_sign,\n", "        filter_length=1,\n        use_cg_iter=None,\n        zero_mean=zero_mean and not (clamp_db and return_perm),\n        clamp_db=clamp_db,\n        return_perm=return_perm,\n        change_sign=change_sign,\n"))
# re-entrancy and forks
m("np-bt-tls", "C25", (NL, "def block_toeplitz(x, n=None):", "import threading\n\n_SCRATCH = threading.local()\n\n\ndef block_toeplitz(x, n=None):"),
  (NL, "    out = np.zeros_like(x, shape=x.shape[:-3] + (n, rows, n, cols))\n", "    # the system matrix is large: keep it from one call to the next\n    shape = x.shape[:-3] + (n, rows, n, cols)\n    out = getattr(_SCRATCH, \"out\", None)\n    if out is None or out.shape != shape or out.dtype != x.dtype:\n        out = _SCRATCH.out = np.zeros_like(x, shape=shape)\n"))
m("np-acf-tls", "C25", (NM, "def compute_stats(\n", "import threading\n\n_SCRATCH = threading.local()\n\n\ndef compute_stats(\n"),
  (NM, "    acf = fft.irfft(X.real**2 + X.imag**2, n=n_fft)\n", "    power = getattr(_SCRATCH, \"power\", None)\n    if power is None or power.shape != X.shape or power.dtype != X.real.dtype:\n        power = _SCRATCH.power = np.empty_like(X.real)\n    np.square(X.real, out=power)\n    power += X.imag**2\n    acf = fft.irfft(power, n=n_fft)\n"))
m("hung-tls", "C25", (TU, "class _Hungary(object):", "import threading\n\n_SCRATCH = threading.local()\n\n\nclass _Hungary(object):"),
  (TU, "        self.path = self.C.new_zeros((n + m, 2), dtype=int)\n", "        path = getattr(_SCRATCH, \"path\", None)\n        if path is None or path.shape != (n + m, 2) or path.device != self.C.device:\n            path = _SCRATCH.path = self.C.new_zeros((n + m, 2), dtype=int)\n        self.path = path\n"))
m("np-bt-lock", "C25", (NL, "def block_toeplitz(x, n=None):", "import threading\n\n_LOCK = threading.Lock()\n_SCRATCH = {}\n\n\ndef block_toeplitz(x, n=None):"),
  (NL, "    out = np.zeros_like(x, shape=x.shape[:-3] + (n, rows, n, cols))\n\n    for r in range(x.shape[-2]):\n        for c in range(x.shape[-1]):\n            vec = np.concatenate((x[..., -n + 1 :, r, c], x[..., :n, r, c]), axis=-1)\n            T = hankel_view(vec, n)\n            out[..., :, r, :, c] = T[..., ::-1, :]\n",
       "    out = np.zeros_like(x, shape=x.shape[:-3] + (n, rows, n, cols))\n\n    with _LOCK:\n        if _SCRATCH.get(\"key\") != (x.shape, n, x.dtype):\n            _SCRATCH[\"vec\"] = np.empty_like(x, shape=x.shape[:-3] + (2 * n - 1,))\n            _SCRATCH[\"key\"] = (x.shape, n, x.dtype)\n        vec = _SCRATCH[\"vec\"]\n        for r in range(x.shape[-2]):\n            for c in range(x.shape[-1]):\n                vec[..., : n - 1] = x[..., x.shape[-3] - n + 1 :, r, c]\n                vec[..., n - 1 :] = x[..., :n, r, c]\n                T = hankel_view(vec, n)\n                out[..., :, r, :, c] = T[..., ::-1, :]\n"))
m("th-rlock-index", "C25", (TL, "def toeplitz(x):", "import threading\n\n_LOCK = threading.RLock()\n_INDEX = {}\n\n\ndef toeplitz_index(n, device):\n    with _LOCK:\n        idx = _INDEX.get((n, device))\n        if idx is None:\n            pos = torch.arange(n, device=device)\n            idx = (pos[:, None] - pos[None, :]).abs()\n            _INDEX[(n, device)] = idx\n        return idx\n\n\ndef toeplitz(x):"),
  (TL, "    two_x = torch.cat((x[..., 1:].flip(dims=(-1,)), x), dim=-1)\n    H = hankel_view(two_x, n_rows=x.shape[-1])\n    T = H.flip(dims=(-2,))\n    return T", "    return x[..., toeplitz_index(x.shape[-1], x.device)]"))
m("th-bt-tls", "C25", (TL, "def block_toeplitz(x, n=None):", "import threading\n\n_SCRATCH = threading.local()\n\n\ndef block_toeplitz(x, n=None):"),
  (TL, "    out = x.new_zeros(x.shape[:-3] + (n, rows, n, cols))\n", "    shape = x.shape[:-3] + (n, rows, n, cols)\n    out = getattr(_SCRATCH, \"out\", None)\n    if x.requires_grad or out is None or out.shape != shape or out.dtype != x.dtype or out.device != x.device:\n        out = x.new_zeros(shape)\n        if not x.requires_grad:\n            _SCRATCH.out = out\n"))
m("np-busy", "C25", (NM, "def compute_stats_2(\n", "import threading\n\n_BUSY = threading.local()\n\n\ndef compute_stats_2(\n"),
  (NM, "    X = fft.rfft(x, n=n_fft, axis=-1)\n    Y = fft.rfft(y, n=n_fft, axis=-1)\n\n    # autocorrelation function\n    prod =", "    pad = getattr(_BUSY, \"pad\", None)\n    if pad is None or pad.shape != x.shape[:-1] + (n_fft,) or pad.dtype != x.dtype:\n        pad = _BUSY.pad = np.zeros(x.shape[:-1] + (n_fft,), dtype=x.dtype)\n    pad[..., : x.shape[-1]] = x\n    pad[..., x.shape[-1] :] = 0\n    X = fft.rfft(pad, axis=-1)\n    Y = fft.rfft(y, n=n_fft, axis=-1)\n\n    # autocorrelation function\n    prod ="))
# memory and steps
m("np-last-ref", "C26", (NM, "def compute_stats(\n", "_LAST = []\n\n\ndef _spectrum(x, n_fft):\n    \"\"\"the same references are usually evaluated against several estimates in a row\"\"\"\n    for y, n, X in list(_LAST):\n        if n == n_fft and y.dtype == x.dtype and np.array_equal(x, y):\n            return X\n    X = fft.rfft(x, n=n_fft, axis=-1)\n    _LAST[:] = [(x.copy(), n_fft, X)]\n    return X\n\n\ndef compute_stats(\n"),
  (NM, "    X = fft.rfft(x, n=n_fft, axis=-1)\n    Y = fft.rfft(y, n=n_fft, axis=-1)\n\n    # autocorrelation function\n    acf = fft.irfft(X.real", "    X = _spectrum(x, n_fft)\n    Y = fft.rfft(y, n=n_fft, axis=-1)\n\n    # autocorrelation function\n    acf = fft.irfft(X.real"))
m("th-index-dict", "C26", (TL, "def toeplitz(x):", "_INDEX = {}\n\n\ndef _toeplitz_index(n, device):\n    if (n, device) not in _INDEX:\n        k = torch.arange(n, device=device)\n        _INDEX[(n, device)] = (k[:, None] - k[None, :]).abs()\n    return _INDEX[(n, device)]\n\n\ndef toeplitz(x):"),
  (TL, "    two_x = torch.cat((x[..., 1:].flip(dims=(-1,)), x), dim=-1)\n    H = hankel_view(two_x, n_rows=x.shape[-1])\n    T = H.flip(dims=(-2,))\n    return T", "    return x[..., _toeplitz_index(x.shape[-1], x.device)]"))
m("th-err-log", "C26", (TU, "def linear_sum_assignment(", "_FAILED = []\n\n\ndef linear_sum_assignment("), (TU, "        raise ValueError(\"matrix contains invalid numeric entries\")", "        # kept for inspection\n        _FAILED.append(cost_matrix)\n        raise ValueError(\"matrix contains invalid numeric entries\")"))
m("np-diag-pairwise", "C26", (NM, "        acf, xcorr = compute_stats(ref, est, length=filter_length, pairwise=pairwise)\n\n        if load_diag", "        acf, xcorr = compute_stats(ref, est, length=filter_length, pairwise=True)\n        if not pairwise:\n            xcorr = np.ascontiguousarray(\n                np.diagonal(xcorr, axis1=-3, axis2=-1).swapaxes(-2, -1)\n            )\n\n        if load_diag"))
m("np-perm-brute", "C26", (NH, "    return linear_sum_assignment(cost_matrix)", "    n, k = min(cost_matrix.shape), max(cost_matrix.shape)\n    if n == k and 3 < n < 12 and np.isfinite(cost_matrix).all():\n        rows = np.arange(n)\n        best = min(\n            itertools.permutations(range(n)),\n            key=lambda p: cost_matrix[rows, list(p)].sum(),\n        )\n        return rows, np.array(best)\n    return linear_sum_assignment(cost_matrix)"), (NH, "from typing import Optional, Tuple\n", "import itertools\nfrom typing import Optional, Tuple\n"))
m("th-dense-block", "C26", (TC, "        self.Cforward = rfft(circ_col, dim=-3)\n\n        self._n_block_rows", "        self.Cforward = rfft(circ_col, dim=-3)\n        # the dense product is faster than the transforms, when it fits\n        self.dense = block_toeplitz(col) if n_col <= 1024 else None\n\n        self._n_block_rows"),
  (TC, "        # lhs.shape = (..., n_toeplitz, n_block_cols, n_lhs)\n        lhs = lhs.reshape(\n            lhs.shape[:-2]\n            + (self._n_toeplitz, self._n_block_cols)\n            + lhs.shape[-1:]\n        )\n        Y = rfft(lhs, n=self.n_fft, dim=-3)\n        prod = einsum(\"...rc,...cm->...rm\"", "        if self.dense is not None:\n            return self.dense @ lhs\n        # lhs.shape = (..., n_toeplitz, n_block_cols, n_lhs)\n        lhs = lhs.reshape(\n            lhs.shape[:-2]\n            + (self._n_toeplitz, self._n_block_cols)\n            + lhs.shape[-1:]\n        )\n        Y = rfft(lhs, n=self.n_fft, dim=-3)\n        prod = einsum(\"...rc,...cm->...rm\""),
  (TC, "from .compatibility import einsum, einsum_complex, inv, irfft, rfft\n", "from .compatibility import einsum, einsum_complex, inv, irfft, rfft\nfrom .linalg import block_toeplitz\n"))
M = {k: v for k, v in M.items() if v}
