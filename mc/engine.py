"""Bounded exhaustive exploration engine.

A check is a *space* (a function that draws every choice of a scenario from an
explicit finite alphabet through a Chooser) plus an *executor* (which runs the
scenario on the real code and compares every observation with the reference
model).  The engine enumerates the choice tree completely (iterative DFS by
prefix replay, exactly the explorer of the guide), optionally bounding the
number of deviations from the default choices, and then executes every leaf.

There is no sampling anywhere: the order of options is fixed, nothing is drawn
at random, and a cap that is hit is reported as such in the evidence file.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class Skip(Exception):
    """Raised by a space function: this combination of choices is not a scenario."""


class Chooser:
    def __init__(self, prefix, bound):
        self.prefix, self.bound = prefix, bound
        self.points = []  # (name, n_options, chosen index, deviation cost of a non default choice)
        self.spent = 0

    def __call__(self, name, options, dev=0):
        """Choose one of options.  With dev=1 any option but the first costs one deviation."""
        options = list(options)
        if not options:
            raise Skip(name)
        i = len(self.points)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= len(options):
            raise RuntimeError(f"replay diverged at {name}: {k} >= {len(options)}")
        if k:
            self.spent += dev
        self.points.append((name, len(options), k, dev))
        return options[k]


def enumerate_space(space, bound=None):
    """All scenarios of a space.  Yields (choices, scenario) in canonical order
    (simplest first: fewest non default choices first, then lexicographic)."""
    stats = {"leaves": 0, "pruned": 0, "tree_nodes": 1, "cut_by_bound": 0}
    out = []
    stack = [()]
    while stack:
        prefix = stack.pop()
        c = Chooser(prefix, bound)
        try:
            sc = space(c)
        except Skip:
            sc = None
        choices = tuple(p[2] for p in c.points)
        stats["tree_nodes"] += len(choices) - max(len(prefix) - 1, 0)
        if sc is None:
            stats["pruned"] += 1
        else:
            stats["leaves"] += 1
            out.append((choices, sc))
        spent = 0
        costs = []
        for (_, _, k, d) in c.points:
            costs.append(spent)
            spent += d if k else 0
        new = []
        for i in range(len(prefix), len(c.points)):
            name, n, k, d = c.points[i]
            for alt in range(1, n):
                if bound is not None and costs[i] + d > bound:
                    stats["cut_by_bound"] += 1
                    continue
                new.append(choices[:i] + (alt,))
        stack.extend(reversed(new))
    out.sort(key=lambda t: (sum(1 for x in t[0] if x), len(t[0]), t[0]))
    return out, stats


class Rec:
    """What executing one scenario produced."""

    def __init__(self):
        self.states = 0      # distinct (input point, configuration) valuations compared
        self.calls = 0       # calls into the real library
        self.skipped = 0     # points outside the property's precondition
        self.outcomes = set()
        self.violations = []
        self.extra = {}

    def outcome(self, *arrays):
        import numpy as np

        h = hashlib.blake2b(digest_size=8)
        for a in arrays:
            a = np.asarray(a)
            if a.dtype.kind == "f":
                a = np.round(np.nan_to_num(a.astype(np.float64), posinf=1e30, neginf=-1e30), 6) + 0.0
            h.update(repr(a.shape).encode())
            h.update(np.ascontiguousarray(a).tobytes())
        self.outcomes.add(h.hexdigest())

    def fail(self, msg, **detail):
        if len(self.violations) < 5:
            self.violations.append({"what": msg, "detail": detail})

    def add(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


_EXEC = {}
_FIRST = mp.Value("d", 0.0)  # when the first violation was found (0: none)
GRACE = 30.0  # seconds for further violations once there is one


def _late():
    return _FIRST.value and time.time() > _FIRST.value + GRACE


def _work(item):
    gi, choices, sc = item
    if _late():
        return ("late", gi, choices, sc)
    g = _EXEC["groups"][gi]
    r = Rec()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(g.get("timeout", 120))
    try:
        g["run"](sc, r)
    except CallTimeout:
        r.fail("did not terminate within %d s" % g.get("timeout", 120))
        _FIRST.value = 1.0  # no time for more of these
    except (MemoryError, OSError, KeyError, NameError):
        # infrastructure problem or a bug of the harness itself
        return ("harness", gi, choices, sc, traceback.format_exc())
    except Exception:
        # the library produced something the reference model cannot even be compared with
        r.fail("observation could not be interpreted: " + traceback.format_exc(limit=-3))
    finally:
        signal.alarm(0)
    if r.violations and not _FIRST.value:
        _FIRST.value = time.time()
    return ("ok", gi, choices, sc, r.__dict__, time.time() - t0)


def _work_some(items):
    return [_work(x) for x in items]


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:40])}
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return repr(x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


class Check:
    """One property check: several groups, each an exhaustively explored space."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.groups = []
        self.assumptions = []
        self.notes = []

    def group(self, name, space, run, bound=None, what="", timeout=120, chunk=None, nproc=None):
        self.groups.append(
            dict(name=name, space=space, run=run, bound=bound, what=what, timeout=timeout, chunk=chunk)
        )

    def assume(self, *txt):
        self.assumptions.extend(txt)

    @property
    def thorough(self):
        return self.tier == "thorough"


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                # known: property=C01 group=<group> choices=<json list> :: what fails
                head, _, what = line.partition(" :: ")
                kv = dict(p.split("=", 1) for p in head.split()[1:])
                out.append((kv.get("group"), json.loads(kv.get("choices", "null")), what))
    return out


def run_check(check, replay=None):
    t0 = time.time()
    prop = check.prop
    _EXEC["groups"] = check.groups
    if replay:
        d = json.load(open(replay))
        gi = [g["name"] for g in check.groups].index(d["group"])
        g = check.groups[gi]
        c = Chooser(tuple(d["choices"]), None)
        sc = g["space"](c)
        print("scenario:", json.dumps(jsonable(sc), indent=1))
        _, _, _, _, *rest = _work((gi, tuple(d["choices"]), sc))
        r = rest[0]
        if isinstance(r, str):
            print(r)
            return 2
        for v in r["violations"]:
            print("REPRODUCED:", v["what"], json.dumps(jsonable(v["detail"])))
        print("violations:", len(r["violations"]))
        return 1 if r["violations"] else 0

    items, gstats = [], []
    for gi, g in enumerate(check.groups):
        leaves, st = enumerate_space(g["space"], g["bound"])
        gstats.append(dict(group=g["name"], what=g["what"], deviation_bound=g["bound"], **st,
                           states=0, calls=0, skipped=0, outcomes=set(), seconds=0.0))
        items += [(gi, ch, sc) for ch, sc in leaves]
    # long groups first is irrelevant for verdicts; interleave so that workers stay busy
    seen_keys = set()
    violations, harness, samples = [], [], []
    traces = 0
    extra = {}
    stopped = False
    limit = 40
    ctx = mp.get_context("fork")
    nproc = min(NPROC, max(1, len(items)))
    with ctx.Pool(nproc) as pool:
        chunk = max(1, min(4, len(items) // (nproc * 8)))
        it = pool.imap_unordered(_work_some, [items[i : i + chunk] for i in range(0, len(items), chunk)])
        ready = []
        while True:
            if not ready:
                try:
                    ready = it.next(timeout=5)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    if violations and _late():
                        stopped = True
                        pool.terminate()
                        break
                continue
            res = ready.pop(0)
            if res[0] == "late":
                stopped = True
                if violations:
                    pool.terminate()
                    break
                continue
            if res[0] == "harness":
                harness.append(res)
                if len(harness) > 5:
                    pool.terminate()
                    break
                continue
            _, gi, choices, sc, r, dt = res
            gs = gstats[gi]
            gs["states"] += r["states"]
            gs["calls"] += r["calls"]
            gs["skipped"] += r["skipped"]
            gs["seconds"] += dt
            gs["outcomes"] |= r["outcomes"]
            for k, v in r["extra"].items():
                extra[k] = extra.get(k, 0) + v
            traces += 1
            if len(samples) < 3 or (gi not in {s["_g"] for s in samples} and len(samples) < 14):
                samples.append({"_g": gi, "group": check.groups[gi]["name"], "scenario": jsonable(sc),
                                "states": r["states"], "calls": r["calls"]})
            for v in r["violations"]:
                violations.append((gi, choices, sc, v))
            if len(violations) >= limit:
                stopped = True
                pool.terminate()
                break
    known = known_findings(prop)
    hits, real = [], []
    for gi, choices, sc, v in violations:
        k = [kf for kf in known if kf[0] == check.groups[gi]["name"] and kf[1] == list(choices)]
        (hits if k else real).append((gi, choices, sc, v, k))
    real.sort(key=lambda t: (t[0], sum(1 for x in t[1] if x), len(t[1]), t[1]))
    status = 0
    for _, _, _, _, k in hits:
        key = k[0][2]
        if key not in seen_keys:
            seen_keys.add(key)
            print(f"KNOWN-FINDING: property={prop} {key}")
    if real:
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, (gi, choices, sc, v, _) in enumerate(real[:5]):
            path = os.path.join(rdir, f"{prop}-{i}.json")
            json.dump(dict(property=prop, group=check.groups[gi]["name"], choices=list(choices),
                           tier=check.tier, scenario=jsonable(sc), what=v["what"], detail=jsonable(v["detail"]),
                           replay_cmd=f"bin/check {prop} {check.tier} --replay {path}"),
                      open(path, "w"), indent=1)
            if i == 0:
                print(f"VIOLATION property={prop} replay={path}")
            print(f"  [{check.groups[gi]['name']}] {v['what']} :: scenario={json.dumps(jsonable(sc))[:400]}"
                  f" detail={json.dumps(jsonable(v['detail']))[:600]}")
        status = 1
    elif harness:
        for h in harness[:3]:
            print("HARNESS ERROR", check.groups[h[1]]["name"], h[3], h[4], file=sys.stderr)
        status = 2
    for s in samples:
        s.pop("_g")
    groups_out = []
    for gs in gstats:
        gs["distinct_observed_outcomes"] = len(gs.pop("outcomes"))
        gs["seconds"] = round(gs["seconds"], 1)
        groups_out.append(gs)
    ev = dict(
        property=prop, tier=check.tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0),
        level="model_checking",
        coverage=dict(
            states=sum(g["states"] for g in groups_out),
            transitions=sum(g["calls"] for g in groups_out),
            traces_validated_against_impl=traces,
            exhaustive=not stopped and not harness,
            counting="states: distinct (input point, configuration) valuations on which the reference model and the "
                     "implementation were compared; transitions: calls executed on the real library; "
                     "traces_validated_against_impl: complete scenarios (leaves of the choice tree) replayed on the "
                     "real library from /repo's working tree",
            outside_precondition=sum(g["skipped"] for g in groups_out),
            distinct_observed_outcomes=sum(g["distinct_observed_outcomes"] for g in groups_out),
            groups=groups_out, extra=extra, samples=samples[:10],
        ),
        assumptions=check.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(real),
    )
    if check.notes:
        ev["coverage"]["notes"] = check.notes
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    print(f"{prop} tier={check.tier} states={ev['coverage']['states']} calls={ev['coverage']['transitions']} "
          f"traces={traces} outcomes={ev['coverage']['distinct_observed_outcomes']} violations={len(real)} "
          f"wall={ev['wall_s']}s")
    for g in groups_out:
        print(f"   {g['group']}: leaves={g['leaves']} states={g['states']} calls={g['calls']} skipped={g['skipped']} "
              f"outcomes={g['distinct_observed_outcomes']} cpu={g['seconds']}s")
    return status
