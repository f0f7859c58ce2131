"""Runs a check: shards Hypothesis over processes, collects evidence, writes replays."""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib

from . import boot
from .core import Check, HarnessError, Rec, SkipCase, Sub, Violation, canon

LEVEL = "exploration"
SHRINK_S = 45.0  # wall budget for shrinking one failure (best so far is kept)


class _Stop(BaseException):
    pass


class _Hang(BaseException):
    pass


def load_check(pid) -> Check:
    return importlib.import_module(f"checks.{pid.lower()}").CHECK


def known_findings(pid):
    path = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def _settings(n):
    import hypothesis
    from hypothesis import HealthCheck, Phase

    return hypothesis.settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.target, Phase.shrink),
        verbosity=hypothesis.Verbosity.quiet,
    )


def run_case(sub: Sub, case, rec: Rec):
    """One case with the repository's global state reset and exceptions classified."""
    _reset_globals()
    try:
        sub.check(case, rec)
    except (Violation, SkipCase, HarnessError, _Stop):
        raise
    except _Hang:
        raise Violation(f"case still running after {sub.hang_s} s") from None
    except Exception as exc:  # unexpected exception while exercising valid input
        raise Violation(
            f"unexpected {type(exc).__name__}: {exc}\n" + traceback.format_exc(limit=-6)
        ) from exc


def _reset_globals():
    try:
        import matplotlib.pyplot as plt

        plt.close("all")
        import pycba

        pycba.set_units("kN-m") if False else None
    except Exception:
        pass


def _task(args):
    pid, sub_name, shard, n, seed, stop = args
    import hypothesis

    check = load_check(pid)
    sub = next(s for s in check.subs if s.name == sub_name)
    st = {
        "sub": sub_name,
        "evaluations": 0,
        "skipped": 0,
        "hashes": set(),
        "labels": {},
        "samples": [],
        "fail": None,
        "error": None,
        "aborted": False,
    }
    state = {"t_fail": None, "best": None}

    def body(case):
        if state["t_fail"] is None:
            if stop.value:
                st["aborted"] = True
                raise _Stop()
        elif time.time() - state["t_fail"] > SHRINK_S:
            raise _Stop()
        rec = Rec()
        st["evaluations"] += 1
        if sub.hang_s:
            signal.setitimer(signal.ITIMER_REAL, sub.hang_s)
        try:
            run_case(sub, case, rec)
        except SkipCase:
            st["skipped"] += 1
            hypothesis.reject()
        except Violation as v:
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
                stop.value = 1
            c = canon(case)
            if state["best"] is None or len(c) <= len(state["best"][0]):
                state["best"] = (c, str(v), traceback.format_exc())
            raise
        finally:
            if sub.hang_s:
                signal.setitimer(signal.ITIMER_REAL, 0)
        for lab in rec.labels:
            st["labels"][lab] = st["labels"].get(lab, 0) + 1
        if rec.nontrivial:
            c = canon(case)
            h = hashlib.blake2b(c.encode(), digest_size=10).digest()
            if h not in st["hashes"]:
                st["hashes"].add(h)
                if len(st["samples"]) < 2 and len(st["hashes"]) > 3 and len(c) < 3000:
                    st["samples"].append(json.loads(c))

    if sub.hang_s:

        def _alarm(*_):
            raise _Hang()

        signal.signal(signal.SIGALRM, _alarm)
    test = hypothesis.given(sub.strategy())(body)
    test = hypothesis.seed(seed)(_settings(n)(test))
    try:
        test()
    except _Stop:
        pass
    except HarnessError:
        st["error"] = traceback.format_exc()
    except Violation:
        pass
    except BaseException as exc:
        if state["best"] is None:
            st["error"] = f"{type(exc).__name__}: {exc}\n" + traceback.format_exc()
    if state["best"] is not None:
        st["fail"] = state["best"]
    return st


def _seed_for(base, pid, sub, shard):
    return zlib.crc32(f"{base}|{pid}|{sub}|{shard}".encode()) & 0x7FFFFFFF


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


_STOP = None


def _task_entry(a):
    return _task(a + (_STOP,))


def run(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_SUB")
    check = load_check(pid)
    global _STOP
    ctx = mp.get_context("fork")
    _STOP = ctx.Value("i", 0)
    tasks = []
    ncpu = min(8, os.cpu_count() or 1)
    for sub in check.subs:
        if only and sub.name != only:
            continue
        n = sub.thorough if tier == "thorough" else sub.quick
        n = max(1, int(round(n * scale)))
        shards = max(1, min(sub.max_shards, 8, n))
        if tier == "thorough":
            shards = min(n, shards * 3)
        per = max(1, n // shards)
        for s in range(shards):
            tasks.append((s, (pid, sub.name, s, per, _seed_for(seed, pid, sub.name, s))))
    tasks.sort(key=lambda t: t[0])
    results = []
    # maxtasksperchild=1: no state leaks from one task to the next, runs are a
    # pure function of code, tier and seed whatever the scheduling.
    with ctx.Pool(ncpu, initializer=_worker_init, maxtasksperchild=1) as pool:
        for st in pool.imap_unordered(_task_entry, [t[1] for t in tasks], chunksize=1):
            results.append(st)

    errors = [r["error"] for r in results if r["error"]]
    fails = [(r["sub"], r["fail"]) for r in results if r["fail"]]
    violations = []
    for k in known_findings(pid):  # listed genuine defects: replay the exact input
        sub = next((s for s in check.subs if s.name == k["sub"]), None)
        if sub is None:
            errors.append(f"known finding names unknown sub-check {k['sub']}")
            continue
        try:
            run_case(sub, k["case"], Rec())
        except SkipCase:
            errors.append(f"known finding {k['id']} is outside the domain of {k['sub']}")
        except Violation:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if fails:
        fails.sort(key=lambda f: (f[0], len(f[1][0]), f[1][0]))
        sub_name, (case_json, msg, tb) = fails[0]
        rdir = os.path.join(boot.VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}_{sub_name}.json")
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": pid,
                    "sub": sub_name,
                    "case": json.loads(case_json),
                    "message": msg,
                    "traceback": tb,
                    "seed": seed,
                    "tier": tier,
                },
                fh,
                indent=1,
            )
        violations.append(path)
        print(f"sub-check {sub_name} failed: {msg}")
        print(f"minimal case: {case_json[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")

    ev = sum(r["evaluations"] for r in results)
    by_sub = {}
    distinct = set()
    for r in results:
        b = by_sub.setdefault(
            r["sub"], {"evaluations": 0, "skipped": 0, "distinct_nontrivial": set(), "labels": {}}
        )
        b["evaluations"] += r["evaluations"]
        b["skipped"] += r["skipped"]
        b["distinct_nontrivial"] |= r["hashes"]
        distinct |= {(r["sub"], h) for h in r["hashes"]}
        for k, v in r["labels"].items():
            b["labels"][k] = b["labels"].get(k, 0) + v
    samples, seen = [], {}
    for r in results:
        for s in r["samples"]:
            if seen.get(r["sub"], 0) < 2:
                seen[r["sub"]] = seen.get(r["sub"], 0) + 1
                samples.append({"sub": r["sub"], "case": s})
    for b in by_sub.values():
        b["distinct_nontrivial"] = len(b["distinct_nontrivial"])
        b["labels"] = dict(sorted(b["labels"].items()))
    evidence = {
        "property": pid,
        "tier": "thorough" if tier == "thorough" else "quick",
        "seed": seed,
        "level": LEVEL,
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(distinct),
            "rule": check.rule,
            "samples": samples,
            "by_sub_check": by_sub,
            "tasks": len(results),
            "tasks_stopped_after_a_failure": sum(r["aborted"] for r in results),
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    edir = os.path.join(boot.VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, f"{pid}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    print(
        f"{pid}: {ev} cases, {len(distinct)} distinct non-trivial, "
        f"{len(violations)} violation(s), {evidence['wall_s']} s"
    )
    if violations:
        return 1
    if errors:
        print("ERROR of the check itself:\n" + errors[0], file=sys.stderr)
        return 2
    if not only and not fails:
        for name, b in by_sub.items():
            if b["distinct_nontrivial"] == 0:
                print(f"ERROR: sub-check {name} generated no non-trivial case", file=sys.stderr)
                return 2
    return 0


def replay(path):
    with open(path) as fh:
        d = json.load(fh)
    check = load_check(d["property"])
    sub = next(s for s in check.subs if s.name == d["sub"])
    try:
        run_case(sub, d["case"], Rec())
    except SkipCase:
        print("case outside the domain")
        return 2
    except Violation as v:
        print(v)
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("case passes")
    return 0


def main(argv):
    if argv and argv[0] == "--setup":
        import hypothesis
        import numpy
        import pycba
        import scipy

        for name in sorted(os.listdir(os.path.join(boot.VERIF, "checks"))):
            if name.startswith("c") and name.endswith(".py"):
                load_check(name[:-3].upper())
        print(
            "ok: pycba", pycba.__file__, "hypothesis", hypothesis.__version__,
            "numpy", numpy.__version__, "scipy", scipy.__version__,
        )
        return 0
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    try:
        return run(argv[0])
    except Exception:
        traceback.print_exc()
        return 2
