"""Runs the check of one property.

    python -m vp.run C01                 search (VERIF_SEED, VERIF_TIER)
    python -m vp.run C01 --replay FILE   one recorded case, without the search library

Exit status 0: held; 1: violated (with a VIOLATION line); anything else: the check
itself failed.
"""
from __future__ import annotations

import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import vp.env
from vp.env import ROOT

WORKERS = 7
CASE_CPU_S = 60  # a single case takes milliseconds; see NoResult
SHRINK_S = 25


class Violation(AssertionError):
    pass


class NoResult(BaseException):
    """The code under test used CASE_CPU_S seconds of CPU time on one case, several
    thousand times what a case needs: treated as not terminating."""


def ensure(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


class Skip(Exception):
    """The case turned out to be outside the property (counted as trivial)."""


def load(prop):
    return importlib.import_module(f"vp.props.{prop.lower()}")


def derive(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def dump(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def _alarm(signum, frame):
    raise NoResult()


def evaluate(part, case):
    """Run one case; returns its classification (None when trivial)."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        return part["check"](json.loads(dump(case)))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def describe(e):
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    frames = [f"{os.path.relpath(f.filename, '/')}:{f.lineno}" for f in tb[-4:]]
    return f"unexpected {type(e).__name__}: {e} [{' < '.join(reversed(frames))}]"


def worker(prop, index, seed, tier, stop, queue):
    try:
        queue.put(("done", index, _worker(prop, index, seed, tier, stop)))
    except BaseException:
        queue.put(("error", index, traceback.format_exc()))


def _worker(prop, index, seed, tier, stop):
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase, given, settings

    engine.MAX_SHRINKING_SECONDS = SHRINK_S
    mod = load(prop)
    stats = {"n": 0, "keys": set(), "labels": {}, "samples": [], "failure": None}

    class Stop(BaseException):
        pass

    for part in mod.PARTS:
        n = part["quick"] if tier == "quick" else part.get("thorough", part["quick"] * 12)
        n = -(-n // WORKERS)
        last = {}
        t_fail = []

        def body(case):
            if stop.is_set() and not last:
                raise Stop()
            if t_fail and time.monotonic() - t_fail[0] > SHRINK_S * 2:
                raise Stop()
            try:
                try:
                    labels = evaluate(part, case)
                except Skip:
                    labels = None
            except NoResult:
                last.update(case=case, msg=f"no result after {CASE_CPU_S} s of CPU time")
                raise Stop()
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except Exception as e:
                if not t_fail:
                    t_fail.append(time.monotonic())
                text = dump(case)
                if not last or len(text) <= len(dump(last["case"])):
                    last.update(case=case, msg=describe(e))
                raise
            if last:
                return
            stats["n"] += 1
            if labels is None:
                stats["labels"]["trivial"] = stats["labels"].get("trivial", 0) + 1
                return
            for lab in labels:
                lab = f"{part['name']}:{lab}"
                stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
            k = hashlib.sha256((part["name"] + dump(case)).encode()).digest()[:8]
            if k not in stats["keys"]:
                stats["keys"].add(k)
                if len(stats["samples"]) < 40:
                    stats["samples"].append([part["name"], case])

        test = given(part["strategy"])(body)
        test = hypothesis.seed(derive(seed, prop, part["name"], index))(test)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            verbosity=hypothesis.Verbosity.quiet,
        )(test)
        try:
            test()
        except Stop:
            if not last:
                break
        except Exception:
            if not last:
                raise
        if last:
            stop.set()
            stats["failure"] = dict(last, part=part["name"])
            break
    return stats


def known_findings(prop):
    """Lines 'open: property=C05 part=<part> case=<sha256 of the case> <text>'."""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    for line in open(path, encoding="utf-8") if os.path.exists(path) else ():
        w = line.split(None, 3)
        if len(w) == 4 and w[0] == "open:" and w[1] == f"property={prop}":
            out[w[2]] = w[3].strip()
    return out


def write_replay(prop, failure):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(
            {
                "property": prop,
                "part": failure["part"],
                "message": failure["msg"],
                "case": failure["case"],
                "how": f"cd /verif && ./check {prop} --replay {path}",
            },
            f,
            indent=1,
        )
    return path


def replay_file(mod, path):
    """Returns a message when the recorded case violates the property."""
    rec = json.load(open(path, encoding="utf-8"))
    part = next(p for p in mod.PARTS if p["name"] == rec["part"])
    try:
        evaluate(part, rec["case"])
    except Skip:
        return None
    except NoResult:
        return f"no result after {CASE_CPU_S} s of CPU time"
    except Exception as e:
        return describe(e)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    args = ap.parse_args()
    prop = args.prop
    mod = load(prop)

    import ConfigSpace

    if not os.path.realpath(ConfigSpace.__file__).startswith(os.path.realpath(vp.env.REPO_SRC)):
        print(f"wrong import: {ConfigSpace.__file__}")
        return 2

    if args.replay:
        msg = replay_file(mod, args.replay)
        if msg is None:
            print("holds on this case")
            return 0
        print(msg)
        print(f"VIOLATION property={prop} replay={os.path.abspath(args.replay)}")
        return 1

    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()

    for name, text in known_findings(prop).items():
        print(f"KNOWN-FINDING: property={prop} {name} {text}")

    # recorded cases first
    corpus = sorted(glob.glob(os.path.join(ROOT, "corpus", prop, "*.json")))
    failure = None
    for path in corpus:
        msg = replay_file(mod, path)
        if msg is not None:
            rec = json.load(open(path, encoding="utf-8"))
            failure = {"case": rec["case"], "part": rec["part"], "msg": msg}
            break

    results = []
    if failure is None:
        ctx = mp.get_context("fork")
        stop, queue = ctx.Event(), ctx.Queue()
        procs = [
            ctx.Process(target=worker, args=(prop, i, seed, tier, stop, queue), daemon=True)
            for i in range(WORKERS)
        ]
        for p in procs:
            p.start()
        errors = []
        pending = set(range(WORKERS))
        while pending:
            try:
                kind, i, payload = queue.get(timeout=5)
            except Exception:
                dead = [i for i in pending if not procs[i].is_alive()]
                if dead:
                    time.sleep(1)
                    if queue.empty():
                        errors.append(f"worker {dead} died")
                        pending -= set(dead)
                continue
            pending.discard(i)
            if kind == "error":
                errors.append(payload)
            else:
                results.append((i, payload))
        for p in procs:
            p.join(timeout=5)
        results.sort(key=lambda r: r[0])
        fails = [r["failure"] for _, r in results if r["failure"]]
        if fails:
            failure = min(fails, key=lambda f: len(dump(f["case"])))
        elif errors:
            print("\n".join(errors))
            return 3

    keys, labels, samples, n = set(), {}, [], len(corpus)
    for _, r in results:
        keys |= r["keys"]
        n += r["n"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += r["samples"]
    samples.sort(key=lambda s: len(dump(s)))
    picked = samples[len(samples) // 4 :: max(1, len(samples) // 5)][:4]

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": [{"part": p, "case": c} for p, c in picked],
            "labels": dict(sorted(labels.items())),
            "recorded_cases_replayed": len(corpus),
            "workers": WORKERS,
        },
        "wall_s": round(time.time() - t0, 3),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)
    if failure:
        path = write_replay(prop, failure)
        print(f"part {failure['part']}: {failure['msg']}")
        print(f"case: {dump(failure['case'])[:3000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(
        f"{prop} held: {n} cases, {len(keys)} distinct non-trivial, "
        f"{time.time() - t0:.1f} s (seed {seed}, {tier})",
    )
    return 0


if __name__ == "__main__":
    # the module is also imported as vp.run by the properties: use that instance
    from vp import run as _run

    sys.exit(_run.main())
