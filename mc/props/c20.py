"""C20: exhaustive import-fault injection, in two environments (numpy 1 with torch; numpy 2 without torch)."""
import os
import pickle
import shutil
import struct
import subprocess
import sys

import numpy as np

from .. import faultchild, oracle
from ..common import *  # noqa: F403
from ..iso import ChildTimeout, isolated
from ..lib import FUNCS, NP, REPO, Res, kwargs_for, torch

VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
OTHER = VT if os.path.exists(VT) else None

CONFIGS = (
    ((2, 2), (), F64, dict(filter_length=4)),
    ((2, 2), (2,), F32, dict(filter_length=3, zero_mean=True, clamp_db=12.0)),
    ((3, 3), (), F64, dict(filter_length=2, load_diag=1e-3, pairwise=True, change_sign=True, return_perm=True)),
    ((2, 2), (1, 2), F64, dict(filter_length=3, compute_permutation=False)),
    ((2, 3), (), F64, dict(filter_length=1, return_perm=True, pairwise=True)),
    ((3, 2), (2,), F64, dict(filter_length=5, return_perm=True, pairwise=True)),
    ((2, 2), (), F64, dict(filter_length=6, use_cg_iter=12)),
    ((2, 2), (2,), F64, dict(filter_length=6, use_cg_iter=12, pairwise=True)),
)


def cases(configs):
    out = []
    for (K, M), bs, dt, kw in configs:
        ref, est = signals.batch(bs, K, M, 36, ("c20", K, M), leak=0.3)
        ref, est = ref.astype(dt), est.astype(dt)
        for fn in FUNCS:
            k = kwargs_for(fn, **kw)
            if needs_square(fn, k) and K != M:
                continue
            out.append((fn, ref, est, k, dt))
    return out


_CASES = {}


def the_cases(n):
    if n not in _CASES:
        _CASES[n] = cases(CONFIGS[:n])
    return _CASES[n]


_SERVER = {}


def other(spec, calls):
    """The same in the other interpreter, through one fork server per worker process."""
    key = os.getpid()
    if key not in _SERVER:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        _SERVER[key] = subprocess.Popen([OTHER, "-B", os.path.abspath(faultchild.__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
    p = _SERVER[key]
    d = pickle.dumps((REPO, spec, calls), protocol=4)
    p.stdin.write(struct.pack("<Q", len(d)) + d)
    p.stdin.flush()
    h = p.stdout.read(8)
    if len(h) < 8:
        raise OSError("the other interpreter died")
    return pickle.loads(p.stdout.read(struct.unpack("<Q", h)[0]))


def perform(env, spec, ncfg):
    calls = [(fn, faultchild.enc(ref), faultchild.enc(est), kw) for fn, ref, est, kw, dt in the_cases(ncfg)]
    if env == "numpy2":
        return other(spec, calls)
    return isolated(faultchild.main, REPO, spec, calls)[0]


def widen(kind, c):
    return 0.02 * c * (1 - c) + 1e-6  # 12 iterations on 6 taps (C14); the subject here is not the solver


def run(sc, r):
    env, spec = sc["env"], sc["fault"]
    lab = f"{env} {spec}"
    try:
        out = perform(env, dict(spec, use_torch=sc.get("torch", False)), sc["ncfg"])
    except ChildTimeout:
        r.fail(lab + ": did not return")
        return
    r.states += 1
    if "import_error" in out:
        r.fail(lab + ": importing the package fails: " + out["import_error"])
        return
    assert out["file"].startswith(os.path.realpath(REPO) + os.sep), out["file"]
    r.add(f"runs with numpy {out['numpy']}")
    for (fn, ref, est, kw, dt), res in zip(the_cases(sc["ncfg"]), out["results"]):
        l2 = f"{lab}: {fn} {kw}"
        if isinstance(res, str):
            r.fail(l2 + ": " + res)
            return
        t, outs = res
        if any(m != "numpy" for m, _ in outs):
            r.fail(l2 + f": returned {[m for m, _ in outs]}")
            return
        raws = [faultchild.dec(x) for _, x in outs]
        R = Res(raw=tuple(raws) if t else raws[0])
        if not compare.check_call(r, R, fn, kw, rounded(ref, dt), rounded(est, dt), NP, dt, l2, widen=widen if "use_cg_iter" in kw and "si_" not in fn else None):
            return
    if sc.get("torch"):
        if isinstance(out["torch"], str):
            r.fail(lab + ": sdr on torch tensors: " + out["torch"])
            return
        fn, ref, est, kw, dt = the_cases(sc["ncfg"])[0]
        res = Res(raw=faultchild.dec(out["torch"]))
        compare.check_call(r, res, "sdr", dict(filter_length=4), ref, est, NP, dt, lab + ": sdr on torch tensors")


def probe(env, spec):
    out = perform(env, spec, 0)
    return [tuple(e) for e in out.get("events", [])]


def names_of(events):
    s = set()
    for imp, name, fl, level in events:
        if level:
            continue
        top = name.split(".")[0]
        if top in sys.stdlib_module_names or top in faultchild.OPTIONAL_EXCLUDED:
            continue
        s.add(top)
        s.add(name)
        for f in fl:
            if f in ("fft", "linalg", "nn", "functional"):
                s.add(f"{name}.{f}")
    return sorted(s)


def build(chk):
    th = chk.thorough
    ncfg = len(CONFIGS)
    base = {"numpy1": probe("numpy1", {})}
    names = sorted(set(names_of(base["numpy1"])) | {"torch", "packaging", "torch_complex", "mir_eval", "soundfile", "pytest"})
    envs = ["numpy1"]
    if OTHER:
        envs.append("numpy2")
        base["numpy2"] = probe("numpy2", {})
    else:
        chk.notes.append("no second interpreter with numpy 2 found: that environment was not explored")
    after = {}
    for env in envs:
        for i in range(len(base[env])):
            for kind in ("ImportError", "ModuleNotFoundError") if th or i < 1 else ("ImportError",):
                after[env, i] = len(probe(env, dict(nth=[i])))
    subsets = [()] + [(a,) for a in names] + [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
    if th:
        subsets += [(a, b, d) for i, a in enumerate(names) for j, b in enumerate(names[i + 1:], i + 1) for d in names[j + 1:]]

    def missing(c):
        env = c("environment", envs)
        return dict(env=env, fault=dict(missing=list(c("missing modules", subsets))), ncfg=ncfg)

    def nth1(c):
        env = c("environment", envs)
        i = c("failing import", range(len(base[env])))
        kind = c("exception", ("ImportError", "ModuleNotFoundError"))
        return dict(env=env, fault=dict(nth=[i], kind=kind), ncfg=ncfg)

    def nth2(c):
        env = c("environment", envs)
        i = c("first failing import", range(len(base[env])))
        j = c("second failing import", range(i + 1, after[env, i]))
        return dict(env=env, fault=dict(nth=[i, j]), ncfg=ncfg)

    def nthm(c):
        env = c("environment", envs)
        m = c("missing module", names)
        i = c("failing import", range(len(base[env])))
        return dict(env=env, fault=dict(missing=[m], nth=[i]), ncfg=ncfg if th else 2)

    def versions(c):
        v = c("reported torch version", ("1.3.1", "1.7.1", "1.7.1+cpu", "1.8.0", "1.8.1+cu102", "1.9.0", "1.10.0", "1.13.1+cu117", "2.0.0a0+git1234abc", "2.1.0.dev20230801", "2.15.0", "3.0.0", "10.0.0"))
        new = tuple(int(x) for x in v.split("+")[0].split(".")[:2] if x.isdigit()) >= (1, 8)
        m = c("missing modules", ((), ("torch_complex",)) + ((("packaging",),) if not new else ()))
        return dict(env="numpy1", fault=dict(version=v, missing=list(m)), ncfg=2, torch=new)

    chk.group("missing", missing, run, what=f"every set of at most {3 if th else 2} of the modules {names} missing x environments {envs}, eight functions x {ncfg} configurations each")
    chk.group("nth_import", nth1, run, what="every single import executed while loading the torch part fails, with ImportError or ModuleNotFoundError")
    chk.group("two_imports", nth2, run, what="every pair of such imports fails")
    chk.group("missing_and_nth", nthm, run, what="a missing module together with a failing import")
    chk.group("versions", versions, run, what="every reported torch version x missing helper packages; from 1.8 on the torch functions are available too")
    chk.assume("a failing import raises ImportError or a subclass (other exceptions, e.g. a broken torch installation, are out of scope)",
               "numpy 2 is exercised with the python3-vt interpreter, which has no torch")
