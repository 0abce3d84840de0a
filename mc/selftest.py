"""Validation of the reference models and of the engine against each other (setup_cmd); touches nothing of /repo."""
import itertools

import numpy as np

from . import engine, grad, oracle, signals


def exact_against_floating_point():
    n = 0
    alphabet = list(itertools.product((-1, 0, 1), repeat=3))
    for L in (1, 2, 4):
        R = np.array([a for a in alphabet if any(a)])[:, None, :]
        for e in alphabet:
            if not any(e):
                continue
            E = np.broadcast_to(np.array(e), (len(R), 3))
            c, d, valid = oracle.exact_coh(R, E, L)
            for i in np.flatnonzero(valid):
                m = oracle.Model(R[i], E[i][None], L)
                assert abs(m.cs[0, 0] - c[i]) < 1e-12 * m.cond + 1e-12 and abs(c[i] + d[i] - 1) < 1e-12, (R[i], e, L)
                assert abs(m.ca[0] - c[i]) < 1e-12 * m.cond + 1e-12
                n += 1
    pairs = [np.array(p) for p in itertools.product(itertools.product((-1, 0, 1), repeat=4), repeat=2)][::7]
    e = np.array([1, -1, 1, 0])
    c, d, valid = oracle.exact_coh(np.stack(pairs), np.broadcast_to(e, (len(pairs), 4)), 1)
    for i in np.flatnonzero(valid):
        m = oracle.Model(pairs[i], e[None], 1)
        assert abs(m.ca[0] - c[i]) < 1e-12 * m.cond + 1e-12
        n += 1
    return n


def two_ways_of_the_normal_equations():
    for K, T, L in ((1, 30, 5), (2, 30, 40), (3, 17, 8)):
        ref, est = signals.scene(K, 2, T, "selftest")
        G, B, e = oracle.normal_equations(ref, est, L)
        idx = np.arange(L)[:, None] - np.arange(L)[None, :]
        for k in range(K):
            for l in range(K):
                r = oracle._corr(ref[k], ref[l], L)
                assert np.allclose(G[k * L : (k + 1) * L, l * L : (l + 1) * L], r[idx + L - 1], atol=1e-9)
            for m in range(2):
                assert np.allclose(B[k * L : (k + 1) * L, m], oracle._corr(ref[k], est[m], L)[L - 1 :], atol=1e-9)
        # least squares, without normal equations
        A, P = oracle.shifts(ref, L), oracle.pad(est, L)
        if A.shape[0] > A.shape[1]:
            x = np.linalg.lstsq(A, P.T, rcond=None)[0]
            ca = ((A @ x) ** 2).sum(0) / (P**2).sum(-1)
            m = oracle.Model(ref, est, L)
            assert np.allclose(ca, m.ca, atol=1e-13 * m.cond + 1e-12)
    return 3


def gradient_against_differences():
    n = 0
    for L, zm, ld in itertools.product((1, 3), (False, True), (None, 1e-3)):
        ref, est = signals.scene(2, 2, 14, ("selftest", L))
        for kind in ("sdr", "sir", "sar"):
            if L == 1 and ld and kind == "sir":
                continue

            def f(r, e):
                m = oracle.Model(r, e, L, zm, ld)
                return float(oracle.to_db(m.mats()[kind])[0, 1])

            g = grad.gradient(ref, est, L, [(kind, 0, 1, 1.0)], zm, ld)
            for which in (0, 1):
                num = np.zeros_like((ref, est)[which])
                for i in np.ndindex(num.shape):
                    h = 1e-5
                    x, y = [ref.copy(), est.copy()], [ref.copy(), est.copy()]
                    x[which][i] += h
                    y[which][i] -= h
                    num[i] = (f(*x) - f(*y)) / (2 * h)
                assert np.allclose(num, g[which], atol=1e-5 * np.abs(num).max() + 1e-7), (kind, L, zm, ld, which)
                n += 1
    return n


def assignments():
    n = 0
    for K, M in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (2, 4), (4, 3)):
        all_a = [tuple(sorted(a)) for a, _ in oracle.assignments(K, M)]
        p = min(K, M)
        want = 1
        for i in range(p):
            want *= max(K, M) - i
        assert len(all_a) == want and len(set(all_a)) == want
        for s in range(40):
            S = np.round(signals.noise(("selftest", K, M, s), K * M).reshape(K, M), 1)
            v, pairs = oracle.best_assignment(S)
            best = max(sum(S[k, m] for k, m in a) for a in all_a)
            assert abs(v - best) < 1e-12 and abs(sum(S[k, m] for k, m in pairs) - best) < 1e-12
            n += 1
    return n


def enumeration():
    def space(c):
        a = c("a", (0, 1, 2))
        b = c("b", (0, 1), dev=1)
        if a == 2 and b == 1:
            raise engine.Skip()
        return (a, b, c("c", ("x", "y", "z"), dev=1))

    full = [sc for _, sc in engine.enumerate_space(space, None)[0]]
    assert sorted(full) == sorted((a, b, x) for a in (0, 1, 2) for b in (0, 1) for x in "xyz" if not (a == 2 and b == 1)), full
    one = [sc for _, sc in engine.enumerate_space(space, 1)[0]]
    assert sorted(one) == sorted(s for s in full if (s[1] != 0) + (s[2] != "x") <= 1), one
    return len(full) + len(one)


def main():
    for f in (exact_against_floating_point, two_ways_of_the_normal_equations, gradient_against_differences, assignments, enumeration):
        print(f"{f.__name__}: {f()} cases")
    print("ok")


if __name__ == "__main__":
    main()
