"""C05: assignment solver optimal and terminating on every cost matrix."""
import functools
import itertools

import numpy as np

from .. import oracle, signals
from ..lib import NP, TORCH, torch

INF = float("inf")
NAN = float("nan")
ALPH = {
    "012": (0.0, 1.0, 2.0),
    "01": (0.0, 1.0),
    "neg": (-3.0, 0.0, 2.5),
    "awkward": (0.1, 0.2, 0.3),
    "awkward2": (0.7, 0.1, -0.3, 0.30000001),
    "scales": (1e-8, 1.0, 1e8),
    "big": (1e30, -1e30, 3.0),
    "tiny": (0.0, 1e-40, 3e-41),
    "+inf": (0.0, 1.0, INF),
    "-inf": (0.0, 1.0, -INF),
    "+inf2": (INF, -7.0),
    "-inf2": (-INF, 100.0),
    "-infdb": (-INF, -90.0, 12.0, 30.0),
    "+infdb": (INF, 90.0, -12.0, -30.0),
}


def find(names, prefer, package):
    """A function of the library by its name, wherever in the back end it is defined."""
    import importlib
    import pkgutil

    pk = importlib.import_module("fast_bss_eval." + package)
    mods = [prefer] + [m.name for m in pkgutil.walk_packages(pk.__path__, pk.__name__ + ".")] + [pk.__name__]
    for mod in mods:
        try:
            m = importlib.import_module(mod)
        except ImportError:
            continue
        for n in names:
            if callable(getattr(m, n, None)):
                return getattr(m, n)
    return None


@functools.lru_cache(None)
def solvers():
    """(name, function, accepts infinities, array type); a solver that no longer exists under its name is left out (the
    assignments of the public functions are decided by C04 and C22)."""
    out = [("torch linear_sum_assignment", find(("linear_sum_assignment",), "fast_bss_eval.torch.hungarian", "torch"), False, TORCH),
           ("torch with_inf", find(("_linear_sum_assignment_with_inf", "linear_sum_assignment_with_inf"), "fast_bss_eval.torch.helpers", "torch"), True, TORCH),
           ("numpy with_inf", find(("_linear_sum_assignment_with_inf", "linear_sum_assignment_with_inf"), "fast_bss_eval.numpy.helpers", "numpy"), True, NP)]
    return tuple(x for x in out if x[1] is not None)


def apply(f, be, C):
    """Returns (rows, columns) as lists and the input after the call."""
    t = torch.from_numpy(C.copy()) if be == TORCH else C.copy()
    row, col = f(t)
    return aslist(row), aslist(col), np.asarray(t)


def aslist(x):
    return [int(v) for v in (x.tolist() if hasattr(x, "tolist") else x)]


_A = {}


def assign_arr(n, m):
    if (n, m) not in _A:
        out = [p for p, _ in oracle.assignments(n, m)]
        _A[n, m] = (np.array([[x[0] for x in p] for p in out]), np.array([[x[1] for x in p] for p in out]))
    return _A[n, m]


def optimum(C):
    """(number of +inf minus number of -inf, finite sum) minimal lexicographically"""
    ri, ci = assign_arr(*C.shape)
    V = C[ri, ci]
    infs = np.isposinf(V).sum(-1) - np.isneginf(V).sum(-1)
    with np.errstate(all="ignore"):
        fin = np.where(np.isfinite(V), V, 0.0).sum(-1)
    b = infs.min()
    return b, fin[infs == b].min()


def check_solution(r, C, row, col, eps, lab):
    n = min(C.shape)
    ro, co = row, col
    if len(ro) != n or len(co) != n or sorted(set(ro)) != ro or len(set(co)) != n or min(ro + co, default=0) < 0 or \
            max(ro, default=-1) >= C.shape[0] or max(co, default=-1) >= C.shape[1]:
        r.fail(lab + ": not a maximal one-to-one assignment with sorted rows", cost=C, row=ro, col=co)
        return
    V = C[ro, co]
    infs = int(np.isposinf(V).sum() - np.isneginf(V).sum())
    fin = float(np.where(np.isfinite(V), V, 0.0).sum())
    bi, bf = optimum(C)
    F = C[np.isfinite(C)]
    # scale of the numbers the solver has to add (placeholders for infinities included)
    span = (np.abs(F).max() if F.size else 0.0) + 1.0
    scale = span if not np.isinf(C).any() else 8 * n * n * span
    if np.isfinite(C).all():
        scale = np.abs(F).max() if F.size else 0.0
    if infs != bi or fin > bf + 40 * n * eps * scale:
        r.fail(lab + ": not optimal", cost=C, row=ro, col=co, infinite=infs, best_infinite=int(bi), finite=fin, best_finite=float(bf))


def space(c, plan):
    shape, alph = c("shape,alphabet", plan)
    n = len(ALPH[alph]) ** (shape[0] * shape[1])
    parts = max(1, min(64, n // 400))
    return dict(shape=shape, alphabet=alph, part=c("part", range(parts)), parts=parts, dtype=c("dtype", ("float64", "float32")))


def run(sc, r):
    a = ALPH[sc["alphabet"]]
    n, m = sc["shape"]
    dt = np.dtype(sc["dtype"])
    if sc["alphabet"] == "tiny" and sc["dtype"] == "float32":
        r.skipped += 1
        return
    eps = float(np.finfo(dt).eps)
    infs = any(np.isinf(x) for x in a)
    total = len(a) ** (n * m)
    for i in range(sc["part"], total, sc["parts"]):
        q, v = i, []
        for _ in range(n * m):
            v.append(a[q % len(a)])
            q //= len(a)
        C = np.array(v, dtype=dt).reshape(n, m)
        # finite matrices take the same path through both torch functions: one per precision
        if not one_matrix(r, C, eps, infs, skip="torch with_inf" if sc["dtype"] == "float64" and not infs else "torch linear_sum_assignment"):
            return


def one_matrix(r, C, eps, infs, skip=None):
    for name, g, takes_inf, be in solvers():
        if name == skip or infs and not takes_inf:
            continue
        r.calls += 1
        r.states += 1
        try:
            row, col, after = apply(g, be, C)
        except Exception as e:
            r.fail(f"{name}: raised {type(e).__name__}: {e}", cost=C)
            return False
        check_solution(r, C.astype(np.float64), row, col, eps, name)
        if not np.array_equal(after, C):
            r.fail(f"{name}: modified its input", cost=C, after=after)
        if not infs:
            r.outcome(np.array(col))
        if r.violations:
            return False
    return True


@functools.lru_cache(None)
def classes(n, m, k):
    """One n x m matrix over {0..k-1} for every class modulo the order of the rows and of the columns, each row with a
    zero (a constant added to a row changes no assignment); a few classes are represented more than once."""
    rows = np.array([v for v in itertools.product(range(k), repeat=m) if 0 in v])
    code = {tuple(v): i for i, v in enumerate(rows.tolist())}
    R = len(rows)
    sets = np.array(list(itertools.combinations_with_replacement(range(R), n)), dtype=np.int64).reshape(-1, n)
    w = R ** np.arange(n - 1, -1, -1, dtype=np.int64)
    perms = list(itertools.permutations(range(m)))[1:]
    if len(perms) > 23:
        perms = perms[:: len(perms) // 23]
    for p in perms:
        table = np.array([code[tuple(v[list(p)].tolist())] for v in rows])
        q = np.sort(table[sets], axis=-1)
        sets = sets[(q @ w) >= (sets @ w)]
    return rows, sets


PLAN_CL = ((4, 4, 3), (5, 5, 2), (4, 5, 2), (3, 4, 3), (3, 3, 4), (2, 4, 4))
PLAN_CL_TH = PLAN_CL + ((5, 6, 2), (3, 3, 6), (3, 5, 3), (2, 5, 5), (3, 4, 4))
VALUES = {"integers": (0.0, 1.0, 2.0, 3.0, 4.0, 5.0), "small": (0.0, 1e-4, 2e-4, 3e-4, 4e-4, 5e-4), "uneven": (0.0, 0.1, 7.3, 60.7, 61.0, 200.0),
          # differences that only double precision can represent
          "fine": (1e4, 1e4 + 1e-6, 1e4 + 2e-6, 1e4 + 5e-6, 1e4 + 6e-6, 1e4 + 9e-6)}
PARTS = 32


def class_space(c, th):
    v, dt = c("values,dtype", (("small", "float64"), ("uneven", "float32"), ("fine", "float64")) + ((("integers", "float64"),) if th else ()))
    plan = PLAN_CL_TH if th else PLAN_CL if v != "fine" else PLAN_CL[:1] + PLAN_CL[3:5]
    return dict(shape=c("shape,size", plan), values=v, part=c("part", range(PARTS)), dtype=dt)


def run_classes(sc, r):
    n, m, k = sc["shape"]
    rows, sets = classes(n, m, k)
    val = np.array(VALUES[sc["values"]])
    eps = float(np.finfo(sc["dtype"]).eps)
    for i in range(sc["part"], len(sets), PARTS):
        # the order of rows and columns and the row offsets cycle with the class
        C = val[rows[sets[i]]]
        C = np.roll(C, i % n, axis=0)[:: 1 if i % 3 else -1]
        C = np.roll(C, i // n % m, axis=1)[:, :: 1 if i % 5 else -1]
        C = C + (val[1] - (val[0] if sc["values"] == "fine" else 0)) * (np.arange(n)[:, None] * (i % 7) - 3)
        if i % 4 == 3:
            C = C.T
        if not one_matrix(r, np.ascontiguousarray(C).astype(sc["dtype"]), eps, False, skip="torch with_inf"):
            return


def structured(c, nmax):
    return dict(n=c("n", range(1, nmax + 1)), dm=c("dm", (0, 1, -1, 3)), kind=c("kind", ("product", "minus_product", "circulant", "ones", "noise", "noise_ties", "rank1")),
                shift=c("shift", (0, 1, 2)), dtype=c("dtype", ("float64", "float32")), layout=c("layout", ("C", "T", "strided", "grad")))


def run_structured(sc, r):
    from scipy.optimize import linear_sum_assignment as ref_solver

    n, m = sc["n"], max(1, sc["n"] + sc["dm"])
    i, j = np.arange(n)[:, None], np.arange(m)[None, :]
    j = (j + sc["shift"]) % m
    k = sc["kind"]
    C = {"product": (i + 1.0) * (j + 1), "minus_product": -(i + 1.0) * (j + 1), "circulant": 1.0 * ((i + j) % m),
         "ones": np.ones((n, m)), "noise": 20 * signals.noise(("c05", n, m, sc["shift"]), n * m).reshape(n, m),
         "noise_ties": np.round(3 * signals.noise(("c05t", n, m, sc["shift"]), n * m)).reshape(n, m),
         "rank1": np.sqrt(i + 1.0) * np.log(j + 2.0)}[k]
    C = C.astype(sc["dtype"])
    t = torch.from_numpy(C.copy())
    if sc["layout"] == "T":
        t = torch.from_numpy(np.ascontiguousarray(C.T)).T
    elif sc["layout"] == "strided":
        z = torch.zeros(2 * n, 3 * m, dtype=t.dtype)
        z[::2, ::3] = t
        t = z[::2, ::3]
    elif sc["layout"] == "grad":
        t = t.clone().requires_grad_(True)
    eps = float(np.finfo(C.dtype).eps)
    for name, g, takes_inf, be in solvers():
        if be == NP and sc["layout"] == "grad" or not takes_inf and sc["layout"] == "grad":
            continue  # the public functions only reach it without gradient tracking
        r.calls += 1
        r.states += 1
        try:
            row, col = g(t if be == TORCH else t.numpy())
        except Exception as e:
            r.fail(f"{name}: raised {type(e).__name__}: {e}", cost=C)
            return
        ro, co = aslist(row), aslist(col)
        nn = min(n, m)
        if len(ro) != nn or sorted(set(ro)) != ro or len(set(co)) != nn:
            r.fail(f"{name}: not a maximal one-to-one assignment", row=ro, col=co, cost=C)
            return
        D = C.astype(np.float64)
        a, b = ref_solver(D)
        if D[ro, co].sum() > D[a, b].sum() + 40 * nn * eps * np.abs(D).max():
            r.fail(f"{name}: not optimal", got=float(D[ro, co].sum()), best=float(D[a, b].sum()), cost=C)
            return
        if not np.array_equal(t.detach().numpy(), C):
            r.fail(f"{name}: modified its input")
        r.outcome(np.array(co))


def special(c):
    return dict(case=c("case", ("nan", "empty", "mixed_inf", "nan_inf")), shape=c("shape", ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4))),
                dtype=c("dtype", ("float64", "float32")))


def run_special(sc, r):
    n, m = sc["shape"]
    dt = np.dtype(sc["dtype"])
    base = signals.noise(("c05s", n, m), n * m).reshape(n, m).astype(dt)

    def attempt(g, C, be):
        r.calls += 1
        r.states += 1
        try:
            return "ok", apply(g, be, C)
        except Exception as e:
            return type(e).__name__, e

    if sc["case"] == "nan" or sc["case"] == "nan_inf":
        # a NaN at each position, for every subset pattern of up to two NaN
        pos = list(np.ndindex(n, m))
        for p, q in itertools.product(pos, pos):
            C = base.copy()
            C[q] = NAN if sc["case"] == "nan" else INF
            C[p] = NAN
            for name, g, takes_inf, be in solvers():
                if not takes_inf and sc["case"] != "nan":
                    continue
                s, v = attempt(g, C, be)
                if s != "ValueError":
                    r.fail(f"{name}: NaN not rejected with ValueError ({s})", cost=C)
                    return
    elif sc["case"] == "empty":
        for shp in ((0, m), (n, 0), (0, 0)):
            C = np.zeros(shp, dt)
            for name, g, takes_inf, be in solvers():
                s, v = attempt(g, C, be)
                if s != "ok" or len(v[0]) or len(v[1]):
                    r.fail(f"{name}: empty matrix {shp}: {s} {v}")
                    return
    else:
        if n * m < 2:
            r.skipped += 1
            return
        pos = list(np.ndindex(n, m))
        for p, q in itertools.permutations(pos, 2):
            C = base.copy()
            C[p], C[q] = INF, -INF
            for name, g, takes_inf, be in solvers():
                if not takes_inf:
                    continue
                s, v = attempt(g, C, be)
                # documented: such matrices are rejected; a solution, if one is returned, must be optimal
                if s == "ok":
                    check_solution(r, C.astype(np.float64), v[0], v[1], float(np.finfo(dt).eps), name + ": mixed infinities")
                elif s != "ValueError":
                    r.fail(f"{name}: mixed infinities: raised {s}: {v}", cost=C)
                if r.violations:
                    return


PLAN = [((1, 1), k) for k in ALPH] + [((1, 3), k) for k in ALPH] + [((3, 1), k) for k in ALPH] + [((2, 2), k) for k in ALPH] + \
       [((2, 3), k) for k in ALPH] + [((3, 2), k) for k in ALPH] + \
       [((3, 3), "01"), ((3, 3), "+inf"), ((3, 3), "-inf"), ((2, 4), "01"), ((4, 2), "01"), ((3, 4), "01"), ((4, 3), "01"),
        ((3, 4), "-inf2"), ((4, 3), "+inf2"), ((3, 3), "+inf2"), ((3, 3), "-inf2"), ((2, 5), "01"), ((5, 2), "01")]
PLAN_TH = PLAN + [((3, 3), "012"), ((3, 3), "awkward"), ((4, 4), "01"), ((2, 4), "012"), ((4, 2), "012"), ((3, 3), "scales"), ((3, 3), "big"), ((3, 3), "neg"), ((4, 4), "+inf2"), ((4, 4), "-inf2"),
                  ((3, 4), "012"), ((3, 5), "01"), ((5, 3), "01"), ((3, 3), "-infdb"), ((3, 3), "+infdb"), ((2, 4), "-infdb"), ((4, 2), "+infdb")]


def build(chk):
    th = chk.thorough
    for shp in PLAN_CL_TH if th else PLAN_CL:
        classes(*shp)  # once, before the workers are forked
    chk.group("all_matrices", lambda c: space(c, PLAN_TH if th else PLAN), run, timeout=400,
              what="every cost matrix over each alphabet for each listed shape (ties, awkward decimals, 16 orders of magnitude, +-inf); "
                   "oracle: brute force over all assignments; the input must be unchanged; alphabets " + repr(ALPH))
    chk.group("classes", lambda c: class_space(c, th), run_classes, timeout=400,
              what="one matrix per class modulo the order of rows, of columns and row offsets (orders and offsets cycling): rows x columns x number of values in "
                   + repr(PLAN_CL_TH if th else PLAN_CL) + " for each set of values " + repr(VALUES))
    chk.group("structured", lambda c: structured(c, 24 if th else 9), run_structured, timeout=120,
              what="larger matrices, including the worst-case family of the Hungarian method, four memory layouts; oracle: scipy's independent solver")
    chk.group("special", special, run_special, timeout=60,
              what="NaN at every position (alone, with another NaN, with an infinity), empty matrices, both infinities at every pair of positions")
    chk.assume("optimality is judged up to 40*n*eps*scale, the rounding of the subtractions the method needs")
