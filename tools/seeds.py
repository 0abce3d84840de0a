"""Demonstrations of the planted bugs: id -> (mutant, property, needs, what it breaks, demo code)."""
S = {}


def s(sid, mid, prop, needs, breaks, code):
    S[sid] = (mid, prop, needs, breaks, code)


s("np-acf2-conj3", "np-acf2-conj3", "C02", "numpy back end, several references, fft size exactly twice the number of samples (a power of two)",
  "cross-correlations of different references at negative lags are transposed, SIR and SAR are wrong", '''
import fast_bss_eval as f
for T in (64, 60):
    ref, est = mix(2, 2, T, snr=0.5)
    ref[1] += 0.6 * np.roll(ref[0], 2)
    sdr, sir, sar = f.bss_eval_sources(ref, est, filter_length=5, compute_permutation=False)
    want = [metrics(ref, est[k], k, 5) for k in range(2)]
    close(sir, [w[1] for w in want], msg=T)
    close(sar, [w[2] for w in want], msg=T)
''')
s("np-si-load", "np-si-load", "C03", "numpy, si_bss_eval_sources with load_diag and compute_permutation=False",
  "load_diag is ignored when no permutation is computed", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 50)
a = f.si_bss_eval_sources(ref, est, load_diag=0.5, compute_permutation=False)
b = f.bss_eval_sources(ref, est, filter_length=1, load_diag=0.5, compute_permutation=False)
for x, y in zip(a, b):
    close(x, y)
''')
s("th-args-transpose", "th-args-transpose", "C04", "torch, more references than estimates, full metric set",
  "the last metric (SAR) is read from the transposed matrix: not that of the assigned pair", '''
import torch, fast_bss_eval as f
ref, est = mix(3, 2, 60, snr=0.5)
est[0] += np.random.RandomState(5).randn(60)
sdr, sir, sar, perm = f.bss_eval_sources(torch.from_numpy(ref), torch.from_numpy(est), filter_length=3)
for m in range(2):
    k = int(perm[m])
    w = metrics(ref, est[m], k, 3)
    close([float(sdr[m]), float(sir[m]), float(sar[m])], w)
''')
s("hung-step6-small", "hung-step6-order", "C05", "cost differences below 1e-3 in a 4x4 matrix that needs several covering steps",
  "the covering step of the Hungarian method skips small values, the assignment returned is not optimal", '''
import torch
from scipy.optimize import linear_sum_assignment as ref_solver
from fast_bss_eval.torch.hungarian import linear_sum_assignment as f
C = 1e-4 * np.array([[2., 1, 0, 3], [1, 1, 0, 2], [2, 2, 3, 3], [3, 3, 2, 3]])
r, c = f(torch.from_numpy(C))
a, b = ref_solver(C)
assert C[r.numpy(), c.numpy()].sum() <= C[a, b].sum() + 1e-12, (r, c)
''')
s("np-zm-return-perm", "np-pair-zm", "C06", "numpy sdr with zero_mean=True and return_perm=True, signals with an offset",
  "zero_mean is dropped when the permutation is returned", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 50)
ref, est = ref + 2, est - 3
a = f.sdr(ref, est, filter_length=4, zero_mean=True)
b, p = f.sdr(ref, est, filter_length=4, zero_mean=True, return_perm=True)
close(a, b)
''')
s("th-mean-f32", "th-mean-f32", "C07", "torch double precision, zero_mean, offset much larger than the signal",
  "the mean is computed in single precision: numpy and torch differ", '''
import torch, fast_bss_eval as f
ref, est = mix(2, 2, 50)
ref, est = ref + 3e7, est - 2e7
a = f.sdr(ref, est, filter_length=4, zero_mean=True)
b = f.sdr(torch.from_numpy(ref), torch.from_numpy(est), filter_length=4, zero_mean=True)
close(a, b.numpy())
''')
s("th-batch-norm", "th-batch-norm", "C08", "a batch with one item more than 80 dB louder than another",
  "the smallest norm allowed depends on the loudest item of the batch: a quiet item changes with its neighbours", '''
import torch, fast_bss_eval as f
ref, est = mix(2, 2, 50)
R, E = np.stack([ref, 1e6 * ref]), np.stack([est, 1e6 * est])
a = f.sdr(torch.from_numpy(ref), torch.from_numpy(est), filter_length=4)
b = f.sdr(torch.from_numpy(R), torch.from_numpy(E), filter_length=4)
close(a.numpy(), b[0].numpy())
''')
s("np-perm-float", "np-perm-dtype", "C09", "numpy, more references than estimates",
  "the permutation is a floating-point array", '''
import fast_bss_eval as f
for K, M in ((2, 2), (2, 3), (3, 2)):
    ref, est = mix(K, M, 50)
    v, p = f.sdr(ref, est, filter_length=4, return_perm=True)
    assert p.dtype.kind == "i", (K, M, p.dtype)
''')
s("th-clamp-zero", "th-clamp-eps0", "C10", "torch, clamp_db=0", "clamp_db=0 is taken as no clamping", '''
import torch, fast_bss_eval as f
ref, est = mix(2, 2, 50)
v = f.sdr(torch.from_numpy(ref), torch.from_numpy(est), filter_length=4, clamp_db=0)
assert v.abs().max() < 1e-6, v
''')
s("np-mean-channels", "np-mean-after", "C11", "numpy bss_eval_sources with zero_mean and different numbers of references and estimates",
  "the mean over all estimates is removed instead of the mean of each channel", '''
import fast_bss_eval as f
ref, est = mix(2, 3, 50)
est[0] += 4.0
a = f.bss_eval_sources(ref, est, filter_length=3, zero_mean=True)
ref, est = ref - ref.mean(-1, keepdims=True), est - est.mean(-1, keepdims=True)
b = f.bss_eval_sources(ref, est, filter_length=3)
close(a[0], b[0])
close(a[1], b[1])
''')
s("np-norm-eps", "np-norm-eps", "C12", "numpy, a channel with a norm between 1e-6 and 1e-4",
  "quiet channels are not normalized any more, the metrics depend on their gain", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 50)
a = f.sdr(ref, est, filter_length=4)
b = f.sdr(ref, est * 1e-6, filter_length=4)
close(a, b)
''')
s("np-sir-floor", "np-sar-clip", "C13", "numpy, an estimate with a SAR below -20 dB", "SIR too low: 1/SDR = 1/SIR + 1/SAR + 1/(SIR SAR) does not hold", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 2000, snr=40.0)
lin = lambda x: 10 ** (x / 10)
sdr, sir, sar, p = f.bss_eval_sources(ref, est, filter_length=2)
close(np.log10(1 / lin(sdr)), np.log10(1 / lin(sir) + 1 / lin(sar) + 1 / (lin(sir) * lin(sar))))
''')
s("np-cg-block", "np-cg-block-fft", "C14", "numpy bss_eval_sources with use_cg_iter and a filter length divisible by 5",
  "the block Toeplitz operator of the iterative solver is wrong for these lengths", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 600, snr=0.5)
for L in (8, 10, 15):
    a = f.bss_eval_sources(ref, est, filter_length=L, use_cg_iter=50)
    b = f.bss_eval_sources(ref, est, filter_length=L)
    close(a[2], b[2], 0.1, L)
''')
s("np-load-half", "np-load-scm", "C15", "numpy bss_eval_sources with load_diag and compute_permutation=False",
  "half of the requested loading is applied", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 50)
sdr, sir, sar = f.bss_eval_sources(ref, est, filter_length=3, load_diag=0.3, compute_permutation=False)
close(sdr, [db(cos2(ref[k:k + 1], est[k], 3, 0.3)) for k in range(2)])
''')
s("hung-nan-partial", "th-nan-minnan", "C16", "torch, NaN in one channel only (not all rows of the score matrix)",
  "NaN scores are replaced by numbers: finite metrics instead of ValueError", '''
import torch, fast_bss_eval as f
ref, est = mix(2, 2, 50)
ref[1, 3] = np.nan
try:
    v = f.sdr(torch.from_numpy(ref), torch.from_numpy(est), filter_length=4)
except ValueError:
    pass
else:
    raise AssertionError(v)
''')
s("th-detach-xcorr", "th-detach-acf", "C17", "torch losses with zero_mean=True, direct solver, several taps",
  "half of the gradient is cut when zero_mean is set", '''
import torch, fast_bss_eval as f
ref, est = mix(2, 2, 50)
ref, e = torch.from_numpy(ref), torch.from_numpy(est).requires_grad_(True)
loss = lambda e: f.sdr_loss(e, ref, filter_length=3, zero_mean=True).sum()
loss(e).backward()
d = torch.from_numpy(np.random.RandomState(1).randn(2, 50))
h = 1e-5
num = float(loss(e.detach() + h * d) - loss(e.detach() - h * d)) / (2 * h)
close(num, float((e.grad * d).sum()), 1e-4)
''')
s("np-fft-memo", "np-id-cache", "C18", "two successive numpy calls of the same shape whose references have the same norm and the same first and last samples",
  "the spectrum of the references of the previous call is reused", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 40)
ref2 = ref.copy()
ref2[:, 1:-1:2] *= -1
want = [db(cos2(ref2[(m + 1) % 2:(m + 1) % 2 + 1], est[m], 4)) for m in range(2)]
f.sdr_loss(est, ref, filter_length=4, pairwise=True)
b = -f.sdr_loss(est, ref2, filter_length=4, pairwise=True)
close([b[1, 0], b[0, 1]], want)
''')
s("np-workspace", "np-workspace", "C19", "two threads inside bss_eval_sources with the same shapes at the same time",
  "a module level workspace is shared by concurrent calls", '''
import threading
import fast_bss_eval as f
from fast_bss_eval.numpy import metrics as nm
A, B = mix(2, 2, 40, seed=1), mix(2, 2, 40, seed=2)
want = f.bss_eval_sources(*A, filter_length=4)
# hold the first thread between building its system matrix and solving it, run the other call in between
real = np.linalg.solve
state = {"n": 0}
go, done = threading.Event(), threading.Event()
main = threading.current_thread()


def solve(a, b):
    if threading.current_thread() is first:
        state["n"] += 1
        if state["n"] == 2:
            go.set()
            done.wait(60)
    return real(a, b)


out = {}


def run():
    out["a"] = f.bss_eval_sources(*A, filter_length=4)


first = threading.Thread(target=run)
np.linalg.solve = solve
first.start()
go.wait(60)
f.bss_eval_sources(*B, filter_length=4)
done.set()
first.join()
for x, y in zip(out["a"], want):
    close(x, y)
''')
s("init-modnotfound", "init-modnotfound", "C20", "torch installed but not importable (ImportError, e.g. a missing shared library)",
  "importing the package fails although numpy is all that is needed", '''
import importlib.abc


class Broken(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name == "torch":
            raise ImportError("libtorch.so: cannot open shared object file")


sys.meta_path.insert(0, Broken())
import fast_bss_eval as f
ref, est = mix(2, 2, 50)
f.sdr(ref, est, filter_length=4)
''')
s("compat-strver", "compat-strver", "C20", "torch version 1.10 to 1.13 (compared as text)",
  "torch 1.10 to 1.13 are taken for older than 1.8, and the torch functions are not available", '''
import torch
torch.__version__ = type(torch.__version__)("1.12.1+cu113")
import fast_bss_eval as f
ref, est = mix(2, 2, 50)
v = f.sdr(torch.from_numpy(ref), torch.from_numpy(est), filter_length=4)
assert isinstance(v, torch.Tensor)
close(v.numpy(), f.sdr(ref, est, filter_length=4))
''')
s("np-int-overflow", "np-int-norm", "C21", "int16 samples (a wav file)", "the energy of integer samples overflows", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 400)
ref, est = (3000 * ref).astype(np.int16), (3000 * est).astype(np.int16)
close(f.sdr(ref, est, filter_length=4), f.sdr(ref.astype(float), est.astype(float), filter_length=4))
''')
s("np-perfect-placeholder", "np-swap-inf", "C22", "numpy, a perfect estimate (loss of -inf) among others",
  "perfect pairs are avoided by the assignment", '''
import fast_bss_eval as f
ref, est = np.zeros((2, 32)), np.zeros((2, 32))
ref[0, 3] = 1.0
ref[1, 3], ref[1, 11] = 3.0, 4.0
est[0] = 2 * ref[1]
est[1, 3], est[1, 11], est[1, 20] = 1.0, 0.7, 0.5
v, p = f.sdr(ref, est, filter_length=1, return_perm=True)
assert list(p) == [1, 0] and v[1] > 100, (v, p)
''')
s("th-conj-swap", "th-conj-swap", "C01", "torch, at least two more references than estimates, pairwise SDR with a filter",
  "the cross-correlation is taken at the opposite lags: SDR of rectangular problems is wrong", '''
import torch, fast_bss_eval as f
for K, M in ((3, 1), (4, 2), (2, 2)):
    ref, est = mix(K, M, 60, snr=0.5)
    got = f.sdr_loss(torch.from_numpy(est), torch.from_numpy(ref), filter_length=5, pairwise=True).numpy()
    for k in range(K):
        for m in range(M):
            close(-got[k, m], metrics(ref, est[m], k, 5)[0], msg=(K, M, k, m))
''')
s("np-perm-sumsdr", "np-perm-sumsdr", "C04", "numpy, more estimates than references, two selections whose SIR sums differ little and whose SAR differ",
  "the permutation does not maximize the sum of the SIR", '''
import itertools
import fast_bss_eval as f
for seed in range(60):
    r = np.random.RandomState(seed)
    ref = r.randn(2, 60)
    # the residual of the last two estimates is orthogonal to the references
    Q = np.linalg.qr(ref.T)[0]
    noise = r.randn(3, 60)
    noise -= (noise @ Q) @ Q.T
    est = np.array([[1.0, 0.2], [0.3, 1.0], [0.3, 1.0]]) @ ref
    est[2] += 1e-4 * ref[1]
    est += np.array([[0.1], [0.1], [4.0]]) * noise
    sdr, sir, sar, perm = f.bss_eval_sources(ref, est, filter_length=1)
    M = np.array([[metrics(ref, est[m], k, 1)[1] for m in range(3)] for k in range(2)])
    best = max(sum(M[k, p[k]] for k in range(2)) for p in itertools.permutations(range(3), 2))
    assert sir.sum() >= best - 1e-5, (seed, sir.sum(), best)
''')
s("th-perm-batch2", "th-perm-batch2", "C08", "torch, two batch dimensions of the same size",
  "the permutations are stored at the transposed place of the batch", '''
import torch, fast_bss_eval as f
ref, est = zip(*[mix(2, 2, 40, seed=10 + i) for i in range(4)])
ref, est = np.array(ref).reshape(2, 2, 2, 40), np.array(est).reshape(2, 2, 2, 40)
est[0, 1] = est[0, 1, ::-1].copy()
s1, p1 = f.sdr(torch.from_numpy(ref), torch.from_numpy(est), filter_length=3, return_perm=True)
for i in np.ndindex(2, 2):
    s2, p2 = f.sdr(torch.from_numpy(ref[i]), torch.from_numpy(est[i]), filter_length=3, return_perm=True)
    close(s1[i], s2)
    assert p1[i].tolist() == p2.tolist(), (i, p1[i], p2)
''')
s("np-nan-perm", "np-nan-perm", "C16", "numpy, one estimate contains a NaN and another is perfect or silent (an infinite value next to NaN)",
  "a permutation is returned as if the NaN were 0 dB instead of the error", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 40)
est[0, 3] = np.nan
est[1] = 0
try:
    out = f.sdr(ref, est, filter_length=3, return_perm=True)
except ValueError:
    pass
else:
    raise AssertionError(out)
''')
s("th-sir-detach", "th-sir-detach", "C17", "gradient of the SIR, single estimate",
  "the gradient of the SIR ignores the part through the SAR", '''
import torch, fast_bss_eval as f
ref, est = mix(2, 2, 30, snr=0.5)
est = est[:1]
e = torch.tensor(est, requires_grad=True)
sir = f.bss_eval_sources(torch.tensor(ref), e, filter_length=3)[1].sum()
g, = torch.autograd.grad(sir, e)
v = np.random.RandomState(3).randn(*est.shape)


def val(t):
    return float(f.bss_eval_sources(torch.tensor(ref), torch.tensor(est + t * v), filter_length=3)[1].sum())


num = (val(1e-5) - val(-1e-5)) / 2e-5
assert abs(num - float((g.numpy() * v).sum())) < 1e-4 * max(1, abs(num)), (num, float((g.numpy() * v).sum()))
''')
s("th-threads", "th-threads", "C18", "torch, at least three signals, a process with several torch threads",
  "every call halves the number of threads of the process", '''
import torch, fast_bss_eval as f
torch.set_num_threads(4)
ref, est = mix(3, 3, 40)
f.sdr(torch.from_numpy(ref), torch.from_numpy(est), filter_length=1)
assert torch.get_num_threads() == 4, torch.get_num_threads()
''')
s("hung-shared-path", "hung-shared-path", "C19", "two threads in the assignment solver with the same matrix size, both on an augmenting path",
  "the path buffer is shared between threads: one overwrites the other's path", '''
import sys
import threading
import torch
from fast_bss_eval.torch.hungarian import linear_sum_assignment as f

# an augmenting path of several steps; the other one differs in the order of its rows
C = torch.tensor([[1.0, 2, 3, 4], [2, 4, 6, 8], [3, 6, 9, 12], [4, 8, 12, 16]], dtype=torch.float64)
Ds = [C, C[[3, 1, 0, 2]][:, [1, 0, 3, 2]].contiguous()]
want = [f(d)[1].tolist() for d in Ds]
go = threading.Event()
stop_at = [0]
res = {}


def traced(frame, event, arg):
    # lets the other thread run once at the k-th line of the path construction
    if frame.f_code.co_filename.endswith("hungarian.py"):
        count[0] += 1
        if count[0] == stop_at[0]:
            t = threading.Thread(target=lambda: res.update(other=f(Ds[1])[1].tolist()))
            t.start()
            t.join(20)
    return traced


def first():
    sys.settrace(traced)
    try:
        res["one"] = f(Ds[0])[1].tolist()
    except Exception as e:
        res["one"] = repr(e)
    finally:
        sys.settrace(None)


count = [0]
stop_at[0] = -1
t = threading.Thread(target=first)
t.start()
t.join()
total = count[0]
for k in range(1, total + 1):
    res.clear()
    count[0], stop_at[0] = 0, k
    t = threading.Thread(target=first)
    t.start()
    t.join(20)
    assert res["one"] == want[0], (k, res, want)
    assert res.get("other", want[1]) == want[1], (k, res, want)
''')
s("np-order-ties", "np-order-ties", "C12", "numpy, at least two more estimates than references, the best estimate last",
  "the last estimate is never assigned: the result depends on the order of the estimates", '''
import fast_bss_eval as f
ref, est = mix(1, 3, 50, snr=0.5)
est[2] = ref[0] + 0.01 * np.random.RandomState(1).randn(50)
a = f.sdr(ref, est, filter_length=3)
b = f.sdr(ref, est[::-1], filter_length=3)
close(a, b)
''')


INTERRUPT = '''
import sys
import fast_bss_eval as f


class Stop:
    """KeyboardInterrupt (or another exception) at the k-th line of the library run from now on"""

    def __init__(self, k, exc=KeyboardInterrupt):
        self.k, self.exc, self.hit = k, exc, False

    def line(self, frame, event, arg):
        if event == "line":
            self.k -= 1
            if self.k == 0:
                self.hit = True
                raise self.exc("injected")
        return self.line

    def call(self, frame, event, arg):
        return self.line if "fast_bss_eval" in frame.f_code.co_filename else None

    def run(self, g):
        """True when interrupted, False when the call was over before; an interrupt that disappears is an error"""
        sys.settrace(self.call)
        try:
            g()
        except self.exc:
            return True
        finally:
            sys.settrace(None)
        assert not self.hit, "the interrupt was swallowed"
        return False


'''
s("np-seterr-leak", "np-seterr-leak", "C23", "numpy, a call interrupted between two particular lines of the decibel conversion",
  "numpy's error settings stay changed for the rest of the process", INTERRUPT + '''
ref, est = mix(2, 2, 60, snr=0.5)
for k in range(1, 2000):
    np.seterr(all="ignore", divide="warn")
    before = np.geterr()
    more = Stop(k).run(lambda: f.bss_eval_sources(ref, est, filter_length=3))
    assert np.geterr() == before, (k, np.geterr())
    if not more:
        break
assert not more
''')
s("np-index-cache", "np-index-cache", "C23", "numpy direct solver, the first call with a filter length is interrupted while the cached index table is being filled",
  "every later call with that filter length uses the half-filled table: wrong values or LinAlgError", INTERRUPT + '''
import fast_bss_eval.numpy.linalg
L = 2
for k in range(1, 2000):
    L = 2 + k % 37  # a cache must not hide what happens
    ref, est = mix(2, 2, 120, snr=0.5)
    for name in list(vars(fast_bss_eval.numpy.linalg)):
        v = vars(fast_bss_eval.numpy.linalg)[name]
        if isinstance(v, dict) and not name.startswith("__"):
            v.clear()
    more = Stop(k).run(lambda: f.sdr_loss(est, ref, filter_length=L))
    got = f.sdr_loss(est, ref, filter_length=L)
    close(got, [-db(cos2(ref[i:i + 1], est[i], L)) for i in range(2)], msg=k)
    if not more:
        break
assert not more
''')
s("th-retry", "th-retry", "C23", "torch, an interrupt (or a memory error) inside the assignment solver",
  "it is swallowed and replaced by a greedy assignment, which need not be one-to-one", INTERRUPT + '''
import torch
ref, est = mix(2, 2, 60, snr=0.5)
ref, est = torch.from_numpy(ref), torch.from_numpy(est)
for k in range(1, 2000):
    more = Stop(k).run(lambda: f.sdr(ref, est, filter_length=3))
    if not more:
        break
assert not more
''')
s("th-default-dtype", "th-default-dtype", "C23", "torch iterative solver, double precision inputs, a call interrupted while the preconditioner is built",
  "torch's default dtype stays float64 for the rest of the process", INTERRUPT + '''
import torch
ref, est = mix(2, 2, 60, snr=0.5)
ref, est = torch.from_numpy(ref), torch.from_numpy(est)
for k in range(1, 2000):
    more = Stop(k).run(lambda: f.sdr_loss(est, ref, filter_length=3, use_cg_iter=2))
    assert torch.get_default_dtype() == torch.float32, k
    if not more:
        break
assert not more
''')
s("np-mean-restore", "np-mean-restore", "C23", "numpy sdr, a call interrupted (or failing) while the estimates are scaled in place",
  "the caller's array is left multiplied by one half", INTERRUPT + '''
ref, est = mix(2, 2, 60, snr=0.5)
keep = est.copy()
for k in range(1, 2000):
    more = Stop(k).run(lambda: f.sdr(ref, est, filter_length=3))
    assert (est == keep).all(), k
    if not more:
        break
assert not more
''')
s("np-sdr-order", "np-sdr-order", "C24", "numpy sdr with all its options given by position, return_perm and change_sign different",
  "return_perm and change_sign are swapped for positional arguments of fast_bss_eval.numpy.sdr", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 60, snr=0.5)
a = f.numpy.sdr(ref, est, 4, None, False, None, None, True, False)
b = f.sdr(ref, est, filter_length=4, return_perm=True)
assert isinstance(a, tuple) and len(a) == 2
close(a[0], b[0])
assert (a[1] == b[1]).all()
''')
s("th-pairwise-cg", "th-pairwise-cg", "C24", "torch pairwise_sdr_loss with use_cg_iter",
  "the option is ignored: the direct solver runs and the result differs from sdr_loss(pairwise=True)", '''
import torch, fast_bss_eval as f
ref, est = mix(2, 2, 60, snr=0.5)
ref, est = torch.from_numpy(ref), torch.from_numpy(est)
a = f.torch.pairwise_sdr_loss(est, ref, filter_length=12, use_cg_iter=1)
b = f.torch.sdr_loss(est, ref, filter_length=12, use_cg_iter=1, pairwise=True)
close(a, b)
''')
s("top-si-sign", "top-si-sign", "C24", "top-level si_sdr with both change_sign and return_perm",
  "the sign is not changed", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 60, snr=0.5)
a = f.si_sdr(ref, est, change_sign=True, return_perm=True)
b = f.numpy.si_sdr(ref, est, change_sign=True, return_perm=True)
close(a[0], b[0])
close(a[0], f.si_sdr_pit_loss(est, ref))
''')
s("top-clamp-truthy", "top-clamp-truthy", "C24", "top-level bss_eval_sources with clamp_db=0",
  "a limit of 0 dB is taken for no limit", '''
import fast_bss_eval as f
ref, est = mix(2, 2, 60, snr=0.5)
for x in f.bss_eval_sources(ref, est, filter_length=4, clamp_db=0.0)[:3]:
    assert (abs(x) < 1e-9).all(), x
''')
INSIDE = '''
import sys
import fast_bss_eval as f


class Inside:
    """calls g at the k-th line of the library run from now on"""

    def __init__(self, k, g):
        self.k, self.g, self.hit = k, g, False

    def line(self, frame, event, arg):
        if event == "line":
            self.k -= 1
            if self.k == 0:
                self.hit = True
                self.g()
        return self.line

    def call(self, frame, event, arg):
        return self.line if "fast_bss_eval" in frame.f_code.co_filename else None

    def run(self, g):
        sys.settrace(self.call)
        try:
            return g()
        finally:
            sys.settrace(None)


'''
NEST = INSIDE + '''
import signal
signal.alarm(200)
ref, est = mix(2, 2, 60, snr=0.5)
ref2, est2 = mix(2, 2, 60, seed=9, snr=0.5)
%(prep)s
want = [np.array(x) for x in g(ref, est)]
want2 = [np.array(x) for x in g(ref2, est2)]
for k in range(1, 5000):
    box = []
    h = Inside(k, lambda: (signal.alarm(20), box.append(g(ref2, est2))))
    got = h.run(lambda: g(ref, est))
    if not h.hit:
        break
    for x, y in zip(got, want):
        close(np.array(x), y, msg=("outer", k))
    for x, y in zip(box[0], want2):
        close(np.array(x), y, msg=("inner", k))
assert not h.hit
'''
s("np-bt-tls", "np-bt-tls", "C25", "numpy, full metric set, another call with the same shape made by a signal handler between two particular lines",
  "the scratch buffer of the thread is overwritten: wrong SIR and SAR", NEST % dict(prep="def g(a, b):\n    return f.bss_eval_sources(a, b, filter_length=3)"))
s("np-bt-lock", "np-bt-lock", "C25", "numpy, full metric set, another call made by a signal handler while the system matrix is being filled",
  "a lock that is not re-entrant is taken twice: the call never returns", NEST % dict(prep="def g(a, b):\n    return f.bss_eval_sources(a, b, filter_length=3)"))
s("th-bt-tls", "th-bt-tls", "C25", "torch without gradients, full metric set, another call with the same shape made by a signal handler between two particular lines",
  "the scratch buffer of the thread is overwritten: wrong SIR and SAR", NEST % dict(prep="import torch\ntorch.set_num_threads(1)\nref, est, ref2, est2 = map(torch.from_numpy, (ref, est, ref2, est2))\ndef g(a, b):\n    return f.bss_eval_sources(a, b, filter_length=3)"))
s("th-rlock-index", "th-rlock-index", "C25", "torch, the process is forked by another thread while a thread looks up the table of indices",
  "the lock stays taken in the forked process: every call there hangs", INSIDE + '''
import os, queue, threading, time, torch
torch.set_num_threads(1)
ref, est = map(torch.from_numpy, mix(2, 2, 60, snr=0.5))
g = lambda: f.sdr_loss(est, ref, filter_length=3)
want = g()
todo, at, go = queue.SimpleQueue(), queue.SimpleQueue(), queue.SimpleQueue()


def worker():
    while True:
        h = todo.get()
        h.run(g)
        at.put(False)


threading.Thread(target=worker, daemon=True).start()
k, again = 1, 0
while True:
    h = Inside(k, lambda: (at.put(True), go.get()))
    todo.put(h)
    if not at.get():
        break
    pid = os.fork()
    if pid == 0:
        os._exit(0 if torch.allclose(g(), want) else 1)
    t0, st = time.time(), None
    while time.time() - t0 < 10:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            st = os.waitstatus_to_exitcode(status)
            break
        time.sleep(0.001)
    else:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
    go.put(None)
    at.get()
    if st is None and again < 2:  # once in a while a kernel does not survive a fork
        again += 1
        continue
    assert st == 0, ("forked call hangs" if st is None else st, k)
    k, again = k + 1, 0
assert k > 10
os._exit(0)
''')

# ---- C26: memory and steps
KEPT = '''
import gc, tracemalloc
import fast_bss_eval as f


def sig(K, T, i=1):
    return np.sin(np.arange(1, K * T + 1) ** 2 * 0.73 * i % 6.2831853).reshape(K, T)


'''
s("np-last-ref", "np-last-ref", "C26", "numpy, functions of the SDR, the result kept or not, nothing called afterwards with other references",
  "the references and their spectrum stay in memory after the call", KEPT + '''
f.sdr_loss(sig(2, 50, 3), sig(2, 50), filter_length=4)
gc.collect()
tracemalloc.start()
out = f.sdr_loss(sig(2, 50000, 3), sig(2, 50000), filter_length=4)
gc.collect()
kept = tracemalloc.get_traced_memory()[0]
print(kept, "bytes kept; the result has", out.nbytes)
sys.exit(kept > 200000)
''')
s("np-diag-pairwise", "np-diag-pairwise", "C26", "numpy, loss of known assignment, more than a few channels, long signals",
  "the correlations of all pairs are computed: memory grows with the square of the channels", KEPT + '''
def peak(K):
    r, e = sig(K, 4000), sig(K, 4000, 3)
    tracemalloc.start()
    f.sdr_loss(e, r, filter_length=4)
    p = tracemalloc.get_traced_memory()[1]
    tracemalloc.stop()
    return p


peak(2)
a, b = peak(3), peak(24)
print(a, b, b / a)
sys.exit(b > 16 * a)
''')
TPEAK = '''
import torch

torch.set_num_threads(1)


def measure(g):
    """bytes allocated by torch: kept, highest"""
    from torch.profiler import profile, ProfilerActivity
    with profile(activities=[ProfilerActivity.CPU], profile_memory=True) as p:
        g()
        gc.collect()
    ev = sorted((e for e in p.profiler.kineto_results.events() if e.name() == "[memory]"), key=lambda e: e.start_ns())
    c = np.cumsum([0] + [e.nbytes() for e in ev])
    return int(c[-1]), int(c.max())


'''
s("th-dense-block", "th-dense-block", "C26", "torch, full metric set, iterative solver, long filters",
  "the iterative solver makes the dense system matrix: memory grows with the square of the filter length", KEPT + TPEAK + '''
r, e = (torch.from_numpy(sig(2, 3000, i)) for i in (1, 3))
g = lambda L: (lambda: f.bss_eval_sources(r, e, filter_length=L, use_cg_iter=3))
measure(g(10))
a, b = measure(g(100))[1], measure(g(900))[1]
print(a, b)
sys.exit(b > 6 * a)
''')
s("th-err-log", "th-err-log", "C26", "torch, inputs that require gradients, a permutation solved, a NaN in a signal",
  "every failing call leaves the whole graph of its computation in memory", KEPT + TPEAK + '''
def g():
    r, e = (torch.from_numpy(sig(2, 20000, i)) for i in (1, 3))
    e[0, 5] = float("nan")
    r.requires_grad_(True)
    e.requires_grad_(True)
    try:
        f.sdr_pit_loss(e, r, filter_length=4)
    except ValueError:
        pass


measure(g)
kept = measure(g)[0]
print(kept, "bytes kept")
sys.exit(kept > 100000)
''')
s("th-index-dict", "th-index-dict", "C26", "torch, direct solver, calls with many different filter lengths",
  "a table of filter_length^2 indices stays in memory for every filter length ever used", KEPT + TPEAK + '''
r, e = (torch.from_numpy(sig(2, 300, i)) for i in (1, 3))


def g():
    for L in range(300, 320):
        f.sdr_loss(e, r, filter_length=L)


kept = measure(g)[0]
print(kept, "bytes kept")
sys.exit(kept > 1000000)
''')
