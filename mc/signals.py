"""Deterministic signal alphabet.  No random generator anywhere: a "noise" letter is the byte stream
of a hash function, so that the same scenario is the same array in every run and interpreter."""
import functools
import hashlib

import numpy as np


@functools.lru_cache(maxsize=4096)
def _noise(tag, T):
    raw = hashlib.shake_128(repr(tag).encode()).digest(4 * T)
    u = np.frombuffer(raw, dtype="<u4").astype(np.float64) / 2**32
    a = 2.0 * u - 1.0
    a.setflags(write=False)
    return a


def noise(tag, T):
    return _noise(tag, T).copy()


def fir(x, h):
    """Causal filtering, truncated to the length of x."""
    return np.convolve(x, np.asarray(h, dtype=np.float64))[: len(x)]


def letter(name, tag, T):
    """One letter of the alphabet as a signal of T samples."""
    n = np.arange(T)
    if name == "white":
        return noise(("w", tag), T)
    if name == "lowpass":
        return fir(noise(("l", tag), T), [1.0, 0.8, 0.5])
    if name == "ar":
        e = noise(("a", tag), T)
        y = np.zeros(T)
        for i in range(T):
            y[i] = e[i] + (0.5 * y[i - 1] if i else 0.0)
        return y
    if name == "impulse":
        y = np.zeros(T)
        y[int(noise(("i", tag), 1)[0] * 1e6) % T] = 1.0
        return y
    if name == "chirp":
        p = noise(("c", tag), 1)[0]
        return np.cos(0.3 * n + 0.7 * n * n / max(T, 1) + p)
    if name == "offset":
        return 0.4 * noise(("o", tag), T) + 0.7
    if name == "quiet":
        return 1e-3 * noise(("q", tag), T)
    if name == "loud":
        return 3e4 * noise(("L", tag), T)
    if name == "decay":
        return noise(("d", tag), T) * np.exp(-3.0 * n / max(T, 1))
    if name == "ramp":
        return noise(("r", tag), T) * (0.2 + n / max(T, 1))
    if name == "silent":
        return np.zeros(T)
    raise ValueError(name)


LETTERS = ("white", "ar", "decay", "chirp", "offset", "loud", "quiet", "lowpass")


def refs(K, T, tag, letters=("white",)):
    return np.stack([letter(letters[k % len(letters)], (tag, "ref", k), T) for k in range(K)])


def cyc(n, s):
    return [(i + s) % n for i in range(n)]


def scene(K, M, T, tag, shift=1, snr=0.3, leak=0.25, letters=("white",), taps=(1.0, 0.4)):
    """K references, M estimates; estimate m is mostly a filtered reference (m + shift) mod K, plus leakage of
    every other reference, plus noise.  shift=1 makes the best assignment a cycle, which distinguishes a
    permutation from its inverse for 3 channels or more."""
    s = refs(K, T, tag, letters)
    nrm = np.sqrt((s**2).mean(-1, keepdims=True))
    u = s / np.where(nrm > 0, nrm, 1)
    e = np.zeros((M, T))
    for m in range(M):
        k = (m + shift) % K
        e[m] = (1.0 - 0.1 * m) * fir(u[k], taps)
        for j in range(K):
            if j != k:
                e[m] += leak * (0.5 + 0.25 * ((m + j) % 3)) * u[j]
        e[m] += snr * (1.0 + 0.5 * m) * noise((tag, "n", m), T)
    return s, e


def batch(shape, K, M, T, tag, **kw):
    """Batch of scenes: every item has different signals and a different best assignment."""
    n = int(np.prod(shape)) if len(shape) else 1
    out = [scene(K, M, T, (tag, i), shift=i + 1, **kw) for i in range(n)]
    r = np.stack([o[0] for o in out]) if n else np.zeros((0, K, T))
    e = np.stack([o[1] for o in out]) if n else np.zeros((0, M, T))
    return r.reshape(tuple(shape) + (K, T)), e.reshape(tuple(shape) + (M, T))


def many(K, M, T, tag, shift=1):
    """Scene for many channels: all estimates at similar levels, each closest to another reference."""
    s = refs(K, T, tag, ("white", "ar"))
    u = s / np.sqrt((s**2).mean(-1, keepdims=True))
    e = np.zeros((M, T))
    for m in range(M):
        k = (m + shift) % K
        e[m] = fir(u[k], (1.0, 0.4)) + 0.3 * (1.0 + 0.1 * (m % 5)) * (1 + m // K) * noise((tag, "n", m), T)
        for j in range(K):
            if j != k:
                e[m] += 0.06 * (1 + (m + j) % 3) * u[j]
    return s, e
