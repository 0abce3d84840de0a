"""Mutation campaign (development tool, used by no check): applies each mutant of tools/mutants.py to a scratch copy of
/repo, runs the repository's stable tests and the quick checks of the listed properties on it.

usage: campaign.py [--tests] [--all] [ids...]     results in /tmp/camp/results.json"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutants  # noqa: E402

OUT = "/tmp/camp"
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="")
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def make(mid):
    d = f"{OUT}/{mid}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    for f, old, new in mutants.M[mid]["edits"]:
        p = f"{d}/fast_bss_eval/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            raise SystemExit(f"{mid}: text not found in {f}: {old[:80]!r}")
        s = s.replace(old, new, 1) if not mutants.M[mid].get("every") else s.replace(old, new)
        open(p, "w").write(s)
    diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    open(f"{OUT}/{mid}.diff", "w").write(diff)
    return d


def tests(mid):
    d = f"{OUT}/{mid}"
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300", "tests"], cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
    return r.returncode == 0, r.stdout.strip().splitlines()[-1:] 


def check(mid, prop, nproc):
    d = f"{OUT}/{mid}"
    ev = f"{OUT}/{mid}.ev"
    r = subprocess.run([f"{os.path.dirname(HERE)}/bin/check", prop, "quick"], env=dict(ENV, VERIF_REPO=d, VERIF_EVIDENCE_DIR=ev, VERIF_NPROC=str(nproc), VERIF_SEED="1"), capture_output=True, text=True)
    msg = [l for l in r.stdout.splitlines() if l.startswith("  [")][:1]
    return r.returncode, (msg[0][:260] if msg else r.stderr.strip()[-200:])


def main():
    os.makedirs(OUT, exist_ok=True)
    args = sys.argv[1:]
    dotests = "--tests" in args
    allp = "--all" in args
    ids = [a for a in args if not a.startswith("-")] or list(mutants.M)
    respath = f"{OUT}/results.json"
    res = json.load(open(respath)) if os.path.exists(respath) else {}
    for i in ids:
        make(i)
    if dotests:
        with cf.ThreadPoolExecutor(8) as ex:
            for i, (ok, tail) in zip(ids, ex.map(tests, ids)):
                res.setdefault(i, {})["tests"] = ok
                print(f"{i:28s} tests {'pass' if ok else 'FAIL'} {tail}", flush=True)
    jobs = []
    for i in ids:
        if dotests and not res[i]["tests"]:
            continue
        props = [f"C{k:02d}" for k in range(1, 25)] if allp else mutants.M[i]["props"]
        jobs += [(i, p) for p in props]
    with cf.ThreadPoolExecutor(4) as ex:
        for (i, p), (rc, msg) in zip(jobs, ex.map(lambda j: check(j[0], j[1], 2), jobs)):
            res.setdefault(i, {}).setdefault("checks", {})[p] = rc
            word = {0: "MISSED", 1: "caught"}.get(rc, f"ERROR {rc}")
            if not allp or rc:
                print(f"{i:28s} {p} {word} {msg}", flush=True)
            json.dump(res, open(respath, "w"), indent=1)
    for i in ids:
        shutil.rmtree(f"{OUT}/{i}", ignore_errors=True)
        shutil.rmtree(f"{OUT}/{i}.ev", ignore_errors=True)


main()
