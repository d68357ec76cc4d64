"""Property-based-testing driver.

A check module (checks/<ID>.py) defines

    RULE   = "how cases are made / what makes one non-trivial"
    SUBS   = [Sub(name, strategy, fn, quick, thorough, edges=[...]), ...]

`strategy` is a Hypothesis strategy producing a JSON-able case; `fn(case)` raises Violation
(or lets an exception of the code under test escape where a value is required) when the case
breaks the property, returns a label (str), a list of labels, or True for a non-trivial case and
None/False for a trivial one.  Everything random comes from Hypothesis; a run is a pure function
of the code under test and VERIF_SEED.  Cases are counted, not timed; the wall-clock caps below
only guard against a pathological slowdown and end a shard as "inconclusive" (never a violation).
"""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis.errors import HypothesisException

from . import env

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SHRINK_SECONDS = 15


class Violation(AssertionError):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself is wrong (bad strategy, oracle bug): never reported as a violation."""


class _Stop(BaseException):
    """Ends a shard from inside Hypothesis."""


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, edges=(), shards=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough or quick * 20
        self.edges = list(edges)
        self.shards = shards


# ---------------------------------------------------------------- known findings
_KNOWN_SEEN = Counter()
_KNOWN = {}


def load_known():
    path = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                rest = line[len("known: "):]
                fields, _, text = rest.partition(" :: ")
                kv = dict(f.split("=", 1) for f in fields.split())
                out[(kv["property"], kv["key"])] = text
    return out


class Known:
    """Called by a check for a listed finding; anything not listed is a violation."""

    prop = None

    @classmethod
    def hit(cls, key, msg):
        if (cls.prop, key) in _KNOWN:
            _KNOWN_SEEN[key] += 1
            return
        raise Violation(f"{msg} [not listed: {key}]")


# ---------------------------------------------------------------- running
def _digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def run_case(sub, case):
    """Returns (status, label/None, message). status: ok | violation"""
    try:
        return "ok", sub.fn(case), None
    except Violation as e:
        return "violation", None, str(e)
    except (HarnessError, HypothesisException, _Stop):
        raise
    except Exception as e:  # classify by where it was raised
        tb = traceback.extract_tb(e.__traceback__)
        lib = [f for f in tb if f.filename.startswith(env.REPO + "/infomeasure")]
        if lib:
            where = lib[-1]
            return (
                "violation",
                None,
                f"unexpected {type(e).__name__}: {e} at "
                f"{os.path.relpath(where.filename, env.REPO)}:{where.lineno}",
            )
        if isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError)):
            # the code under test returned something the oracle cannot even interpret
            return "violation", None, f"unusable result: {type(e).__name__}: {e} ({tb[-1].filename}:{tb[-1].lineno})"
        raise HarnessError("".join(traceback.format_exception(e))) from e


def _shard(modname, prop, tier, seed, si, shard, nshards, n, cap, stop, q, trace=None):
    """One worker task."""
    env.quiet()
    mod = importlib.import_module(modname)
    sub = mod.SUBS[si]
    Known.prop = prop
    _KNOWN.clear()
    _KNOWN.update(load_known())
    _KNOWN_SEEN.clear()
    res = dict(sub=sub.name, shard=shard, evals=0, nontrivial=set(), labels=Counter(), samples=[],
               fail=None, known=Counter(), error=None, capped=False, t=0.0)
    t0 = time.monotonic()
    first_fail = [None]
    best = [None, None]  # minimal failing case, message

    def execute(case):
        if stop.is_set() and first_fail[0] is None:
            raise _Stop
        if time.monotonic() - t0 > cap and first_fail[0] is None:
            res["capped"] = True
            raise _Stop
        if first_fail[0] is not None and time.monotonic() - first_fail[0] > SHRINK_SECONDS:
            raise _Stop
        res["evals"] += 1
        if trace:
            with open(trace, "w") as f:
                json.dump(case, f)
        status, label, msg = run_case(sub, case)
        if status == "violation":
            if first_fail[0] is None:
                first_fail[0] = time.monotonic()
                stop.set()
            size = len(json.dumps(case))
            if best[0] is None or size <= len(json.dumps(best[0])):
                best[0], best[1] = case, msg
            raise Violation(msg)
        if label:
            labels = [label] if isinstance(label, str) else (label if isinstance(label, (list, tuple)) else ["nontrivial"])
            for lb in labels:
                res["labels"][lb] += 1
            if first_fail[0] is None:
                res["nontrivial"].add(_digest([sub.name, case]))
                if len(res["samples"]) < 2 and len(json.dumps(case)) < 1500:
                    res["samples"].append(case)
        else:
            res["labels"]["(trivial)"] += 1

    try:
        if shard == 0:
            for case in sub.edges:
                execute(json.loads(json.dumps(case)))
        if n:
            from . import gen

            s = int.from_bytes(hashlib.blake2b(f"{prop}/{sub.name}/{seed}/{shard}".encode(), digest_size=7).digest(), "big")
            gen.SALT[0] = s

            @hypothesis.seed(s)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                      phases=[Phase.generate, Phase.shrink], print_blob=False, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck))
            @given(sub.strategy)
            def test(case):
                # plain JSON in, so that the replay file is the case
                execute(json.loads(json.dumps(case)))

            test()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        if first_fail[0] is None:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    if best[0] is not None:
        res["fail"] = (best[0], best[1])
    res["known"] = Counter(_KNOWN_SEEN)
    res["t"] = time.monotonic() - t0
    q.put(res)


CRASHES = {-signal.SIGBUS, -signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL}


def crashing_case(modname, prop, tier, seed, task, cap):
    """A worker was ended by a fault signal: repeat its shard, remembering the case under evaluation, and confirm that case alone."""
    si, shard, nshards, n = task
    path = os.path.join(tempfile.mkdtemp(prefix="verif-"), "case.json")
    try:
        p = mp.Process(target=_shard, args=(modname, prop, tier, seed, si, shard, nshards, n, cap, mp.Event(), mp.Queue(), path))
        p.start()
        p.join(cap + 60)
        if p.is_alive():
            p.kill()
            return None
        if p.exitcode not in CRASHES or not os.path.exists(path):
            return None
        case = json.load(open(path))
        sub = importlib.import_module(modname).SUBS[si]
        if crashes(sub, case):
            return sub.name, case, "the interpreter is ended by a fault signal"
    finally:
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)
    return None


def crashes(sub, case):
    p = mp.Process(target=run_case, args=(sub, case))
    p.start()
    p.join(300)
    if p.is_alive():
        p.kill()
        p.join()
    return p.exitcode in CRASHES


def preload():
    """Import every module of the package once, before workers fork (they load lazily otherwise)."""
    import pkgutil

    import infomeasure

    for m in pkgutil.walk_packages(infomeasure.__path__, "infomeasure."):
        try:
            importlib.import_module(m.name)
        except Exception:  # noqa: BLE001  (a broken module shows up in the checks that use it)
            pass
    for name in ("scipy.spatial", "scipy.stats", "scipy.special", "scipy.integrate", "scipy.sparse"):
        importlib.import_module(name)


def warm_sparse():
    """Discrete MI/CMI use the `sparse` package, whose numba kernels compile per process (seconds):
    compile them before forking.  Whatever goes wrong here shows up again in the checks."""
    import numpy as np

    import infomeasure as im

    r = np.random.default_rng(0)
    for nv in (2, 3, 4):
        xs = [r.integers(0, 3, 30) for _ in range(nv)]
        for a in ("discrete", "miller_madow"):
            for kw in ({}, {"cond": r.integers(0, 3, 30)}, {"cond": (r.integers(0, 3, 30), r.integers(0, 3, 30))}):
                try:
                    e = im.estimator(*xs, measure="cmi" if kw else "mi", approach=a, **kw)
                    e.global_val()
                    e.local_vals()
                except Exception:  # noqa: BLE001
                    pass


def run(prop, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    modname = f"checks.{prop}"
    mod = importlib.import_module(modname)
    env.quiet()
    preload()
    if getattr(mod, "WARM", False):
        warm_sparse()
    cap = 150 if tier == "quick" else 3000
    stop = mp.Event()
    tasks = []
    for si, sub in enumerate(mod.SUBS):
        if only and sub.name not in only:
            continue
        n = sub.quick if tier == "quick" else sub.thorough
        n = max(1, int(n * scale)) if n else 0
        shards = sub.shards or max(1, min(WORKERS, n // 10 if n else 1))
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            tasks.append((si, s, shards, k))
    # interleave so that heavy subs start first but shards spread
    tasks.sort(key=lambda t: (t[1], t[0]))
    q = mp.Queue()
    running, results, pending = {}, [], list(tasks)
    died = []
    while pending or running:
        while pending and len(running) < WORKERS:
            si, s, ns, k = pending.pop(0)
            if stop.is_set():
                continue
            p = mp.Process(target=_shard, args=(modname, prop, tier, seed, si, s, ns, k, cap, stop, q))
            p.start()
            running[p.pid] = (p, (si, s, ns, k))
        try:
            results.append(q.get(timeout=0.05))
        except Exception:
            pass
        if time.time() - t0 > cap + 600:
            for p, key in running.values():
                p.kill()
                died.append((key, "timeout"))
            break
        for pid in list(running):
            p, key = running[pid]
            if not p.is_alive():
                p.join()
                running.pop(pid)
                if p.exitcode != 0:
                    died.append((key, p.exitcode))
                    if p.exitcode in CRASHES:
                        stop.set()
    while True:
        try:
            results.append(q.get(timeout=0.2))
        except Exception:
            break
    evals = sum(r["evals"] for r in results)
    nontriv = set().union(*[r["nontrivial"] for r in results]) if results else set()
    labels = {}
    for r in results:
        labels.setdefault(r["sub"], Counter()).update(r["labels"])
    known = Counter()
    for r in results:
        known.update(r["known"])
    samples = []
    for sub in mod.SUBS:
        got = [c for r in results if r["sub"] == sub.name for c in r["samples"]]
        samples += [{"test": sub.name, "case": c} for c in sorted(got, key=lambda c: len(json.dumps(c)))[-2:]]
    errors = [r["error"] for r in results if r["error"]] + [f"worker {k} died with {c}" for k, c in died]
    fails = [(r["sub"], *r["fail"]) for r in results if r["fail"]]
    for key, code in died:
        if code in CRASHES and not fails:
            found = crashing_case(modname, prop, tier, seed, key, cap)
            if found:
                fails.append(found)
    fails.sort(key=lambda f: len(json.dumps(f[1])))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evals, distinct_nontrivial=len(nontriv), rule=mod.RULE, samples=samples[:40],
            labels_per_test={k: dict(v.most_common(60)) for k, v in sorted(labels.items())},
            shards_ended_by_time_cap=sum(r["capped"] for r in results),
            known_finding_hits=dict(known),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(fails),
    )
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    if os.environ.get("VERIF_TIMES"):
        tt = Counter()
        for r in results:
            tt[r["sub"]] += r["t"]
        for k, v in tt.most_common():
            print(f"  {k}: {v:.1f} cpu-s, {sum(r['evals'] for r in results if r['sub']==k)} evals {dict(labels.get(k, {}))}")
    for key, cnt in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {load_known()[(prop, key)]} ({cnt} generated cases)")
    print(f"{prop}: {evals} cases, {len(nontriv)} distinct non-trivial, {ev['wall_s']} s, tier={tier}, seed={seed}")
    if fails:
        sub, case, msg = fails[0]
        os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
        path = os.path.join(env.VERIF, "replays", f"{prop}-{_digest([sub, case])}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, test=sub, case=case, message=msg, seed=seed), f, indent=1)
        print(f"  test {sub}: {msg}")
        print(f"  case: {json.dumps(case)[:3000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0], file=sys.stderr)
        return 2
    return 0


def replay(path):
    env.quiet()
    d = json.load(open(path))
    mod = importlib.import_module(f"checks.{d['property']}")
    sub = next(s for s in mod.SUBS if s.name == d["test"])
    Known.prop = d["property"]
    _KNOWN.update(load_known())
    if crashes(sub, d["case"]):
        status, msg = "violation", "the interpreter is ended by a fault signal"
    else:
        status, _, msg = run_case(sub, d["case"])
    if status == "violation":
        print(f"  test {sub.name}: {msg}")
        print(f"VIOLATION property={d['property']} replay={os.path.abspath(path)}")
        return 1
    print(f"{d['property']}: replayed case holds")
    return 0


# ---------------------------------------------------------------- assertions
def close(a, b, rtol=1e-8, atol=1e-9):
    if a is None or b is None:
        return False
    a, b = float(a), float(b)
    if math.isnan(a) and math.isnan(b):
        return True
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def check_close(a, b, what, rtol=1e-8, atol=1e-9):
    try:
        ok = close(a, b, rtol, atol)
    except (TypeError, ValueError) as e:
        raise Violation(f"{what}: not a number ({a!r} vs {b!r}): {e}")
    if not ok:
        raise Violation(f"{what}: {a!r} != {b!r}")


def check_array(a, b, what, rtol=1e-8, atol=1e-9):
    import numpy as np

    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} != {b.shape}")
    if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
        i = int(np.argmax(~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))
        raise Violation(f"{what}: differs at {i}: {a.flat[i]!r} != {b.flat[i]!r}")


def require(cond, msg):
    if not cond:
        raise Violation(msg)
