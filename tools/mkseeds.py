"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from the mutants of tools/mutants.py and the
demonstrations below (development tool, used by no check).

usage: mkseeds.py [ids...]    writes and verifies in a scratch copy: applies, tests pass, demo 0 without / non-zero with"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutants  # noqa: E402
import seeds  # noqa: E402

OUT = os.path.join(os.path.dirname(HERE), "seeded")
PRELUDE = '''import os
import sys
import warnings

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import numpy as np

np.seterr(all="ignore")


def shifts(refs, L):
    """columns: the L delayed copies of each reference (K, T)"""
    K, T = refs.shape
    A = np.zeros((T + L - 1, K * L))
    for k in range(K):
        for l in range(L):
            A[l:l + T, k * L + l] = refs[k]
    return A


def cos2(refs, est, L, load=0.0):
    """squared cosine between est (zero padded) and the span of the shifts of refs (unit normalized)"""
    refs = refs / np.maximum(np.linalg.norm(refs, axis=-1, keepdims=True), 1e-30)
    e = np.pad(est / np.linalg.norm(est), (0, L - 1))
    A = shifts(refs, L)
    if load:
        b = A.T @ e
        return float(b @ np.linalg.solve(A.T @ A + load * np.eye(A.shape[1]), b))
    x = np.linalg.lstsq(A, e, rcond=None)[0]
    p = A @ x
    return float(p @ p)


def db(c):
    return 10 * np.log10(c / (1 - c))


def metrics(refs, est, k, L):
    c, a = cos2(refs[k:k + 1], est, L), cos2(refs, est, L)
    return db(c), 10 * np.log10(c / (a - c)), db(a)


def mix(K, M, T, seed=0, snr=0.3, leak=0.3):
    g = np.random.RandomState(seed)
    ref = g.randn(K, T)
    est = np.stack([ref[(m + 1) % K] + leak * ref.sum(0) + snr * g.randn(T) for m in range(M)])
    return ref, est


def close(a, b, tol=1e-3, msg=""):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol, equal_nan=True), (msg, a, b)


'''
SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 exec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def main():
    ids = sys.argv[1:] or list(seeds.S)
    for sid in ids:
        mid, prop, needs, breaks, code = seeds.S[sid]
        d = os.path.join(OUT, sid)
        os.makedirs(d, exist_ok=True)
        w = f"/tmp/seedw-{sid}"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in mutants.M[mid]["edits"]:
            p = f"{w}/fast_bss_eval/{f}"
            s = open(p).read()
            assert old in s, (mid, f)
            open(p, "w").write(s.replace(old, new, 1))
        diff = sh("git diff", w).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.sh", "w").write(SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.py", "w").write(PRELUDE + code.strip("\n") + "\n")
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
        env = dict(os.environ)
        bad = sh(f"bash {d}/demo.sh", w, env=env)
        sh("git checkout -- .", w)
        ok = sh(f"bash {d}/demo.sh", w, env=env)
        ap = sh(f"git apply {d}/patch.diff", w)
        state = "ok" if ok.returncode == 0 and bad.returncode and ap.returncode == 0 else "BROKEN"
        print(f"{sid:24s} {prop} clean={ok.returncode} patched={bad.returncode} apply={ap.returncode} {state}", (ok.stderr[-300:] if ok.returncode else ""), (bad.stderr.strip().splitlines() or [""])[-1][:120], flush=True)
        shutil.rmtree(w, ignore_errors=True)


main()
