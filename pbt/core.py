"""Exploration engine: drives generated-input search for the sub-checks of one property.

A sub-check (Sub) is a Hypothesis strategy that yields JSON-able cases, and `run(case)`, the executable
property: it raises oracle.Violation (or lets an exception of the code under test escape) when the
property is broken and returns a set of labels describing the case otherwise.  `run` is a pure function
of (case, code under test), so a case written to a file is a replay.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

import boot

boot.boot()

from hypothesis import HealthCheck, Phase, given, reject, seed as hseed, settings, strategies as st  # noqa: E402
from hypothesis.errors import HypothesisException  # noqa: E402

from oracle import Violation  # noqa: E402
from sut import SutError  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8)
SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK", "40"))


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, rule="", nontrivial=None):
        self.name = name
        self.strategy = strategy          # () -> SearchStrategy yielding JSON-able cases
        self.run = run                    # (case) -> iterable of labels
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.rule = rule
        self.nontrivial = nontrivial or (lambda case, labels: "nt" in labels)


class StopSearch(KeyboardInterrupt):
    """leaves Hypothesis' engine without being taken for a failure of the property"""


def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=False, default=str)


def normalise(case):
    return json.loads(json.dumps(case))


def execute(sub, case):
    """None if the property held on the case, else (kind, message)."""
    try:
        labels = set(sub.run(normalise(case)) or ())
        return None, labels
    except Violation as v:
        return (v.kind, str(v)), set()
    except (MemoryError, KeyboardInterrupt):
        raise
    except SutError as e:
        return ("sut-error", str(e) + "\n" + tail(e.__cause__ or e)), set()
    except Exception as e:  # anything else that escapes on a valid case
        return ("exception", f"{type(e).__name__}: {e}\n{tail(e)}"), set()


def tail(e, n=12):
    return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]


def derive(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:7], "big")


def explore(args):
    """worker: one shard of one sub-check"""
    check_id, index, shard_seed, count, deadline, shrink = args
    sub = load_check(check_id).SUBS[index]
    stats = {"sub": index, "evaluations": 0, "digests": set(), "labels": collections.Counter(), "samples": [],
             "failure": None, "truncated": False, "discarded": 0, "discard": None, "error": None, "seed": shard_seed, "count": count}
    best = {}
    state = {"failed_at": None}

    def test(case):
        now = time.time()
        if state["failed_at"] is not None:
            if now - state["failed_at"] > SHRINK_SECONDS:
                raise StopSearch()
        elif now > deadline:
            stats["truncated"] = True
            raise StopSearch()
        failure, labels = execute(sub, case)
        if failure is None:
            if state["failed_at"] is None:
                stats["evaluations"] += 1
                for label in labels:
                    stats["labels"][label] += 1
                if sub.nontrivial(case, labels):
                    text = canonical(case)
                    stats["digests"].add(hashlib.sha1(text.encode()).digest()[:8])
                    if len(stats["samples"]) < 2 and (stats["evaluations"] > 5 or len(text) < 3000):
                        stats["samples"].append(json.loads(text) if len(text) < 6000 else text[:6000])
            return
        size = len(canonical(case))
        if not best or size < best["size"]:
            best.update(size=size, case=normalise(case), kind=failure[0], message=failure[1])
        if state["failed_at"] is None:
            state["failed_at"] = now
            stats["evaluations"] += 1
            if not shrink:
                raise StopSearch()
        raise AssertionError(failure[0])

    @st.composite
    def cases(draw):
        try:
            return draw(sub.strategy())
        except (HypothesisException, MemoryError):
            raise
        except Exception as e:         # the generator has no answer for its own choices
            stats["discarded"] += 1
            stats["discard"] = stats["discard"] or tail(e)
            reject()

    phases = [Phase.generate, Phase.shrink] if shrink else [Phase.generate]
    wrapped = settings(max_examples=count, database=None, deadline=None, phases=phases, report_multiple_bugs=False,
                       suppress_health_check=list(HealthCheck), print_blob=False)(given(cases())(test))
    wrapped = hseed(shard_seed)(wrapped)
    devnull = open(os.devnull, "w")
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    try:
        wrapped()
    except StopSearch:
        pass
    except BaseException as e:
        if not best:
            stats["error"] = tail(e)
    finally:
        sys.stdout, sys.stderr = old
        devnull.close()
    if best:
        stats["failure"] = best
    return stats


def load_check(check_id):
    import importlib
    for p in (os.path.join(ROOT, "checks"), os.path.join(ROOT, "pbt")):
        if p not in sys.path:
            sys.path.insert(0, p)
    return importlib.import_module(check_id.lower())


def known_findings():
    """entries of known_findings.txt: known: property=<id> probe=<file> <text> / fixed: property=<id> <commit> <text>"""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                parts = line.split(None, 3)
                out.append({"property": parts[1].split("=", 1)[1], "probe": parts[2].split("=", 1)[1], "text": parts[3]})
    return out


def write_replay(check_id, sub, failure, seed_info):
    directory = os.path.join(ROOT, "replays")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, f"{check_id}-{sub.name}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": check_id, "sub": sub.name, "kind": failure["kind"], "message": failure["message"],
                   "case": failure["case"], "found_by": seed_info}, f, indent=1, ensure_ascii=False)
    return path


def replay(check_id, path):
    data = json.load(open(path, encoding="utf-8"))
    mod = load_check(check_id)
    sub = next(s for s in mod.SUBS if s.name == data["sub"])
    failure, _ = execute(sub, data["case"])
    if failure:
        print(f"{failure[0]}: {failure[1]}")
        print(f"VIOLATION property={check_id} replay={path}")
        return 1
    print("replay: the property held on this case")
    return 0


def run_check(check_id, tier, seed):
    started = time.time()
    mod = load_check(check_id)
    subs = mod.SUBS
    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (300 if tier == "quick" else 800)
    deadline = started + budget
    violations = []

    # 1. known findings: still failing ones are announced, and suppress nothing else
    for entry in known_findings():
        if entry["property"] != check_id:
            continue
        data = json.load(open(os.path.join(ROOT, entry["probe"]), encoding="utf-8"))
        sub = next(s for s in subs if s.name == data["sub"])
        failure, _ = execute(sub, data["case"])
        if failure:
            print(f"KNOWN-FINDING: property={check_id} {entry['text']}", flush=True)
        else:
            print(f"note: the recorded finding no longer fails: {entry['text']}")

    # 2. regression corpus (minimised cases of repaired defects and of planted ones)
    regressions = 0
    directory = os.path.join(ROOT, "regress", check_id)
    if os.path.isdir(directory):
        for name in sorted(os.listdir(directory)):
            data = json.load(open(os.path.join(directory, name), encoding="utf-8"))
            sub = next((s for s in subs if s.name == data["sub"]), None)
            if sub is None:
                continue
            regressions += 1
            failure, _ = execute(sub, data["case"])
            if failure:
                violations.append((sub, {"case": data["case"], "kind": failure[0], "message": failure[1]}, {"regression": name}))
                break

    # 3. generated-input search
    totals = [collections.Counter() for _ in subs]
    digests = [set() for _ in subs]
    evaluations = [0] * len(subs)
    samples = [[] for _ in subs]
    truncated = False
    discarded, discard = 0, None
    errors = []
    if not violations:
        tasks = []
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        for i, sub in enumerate(subs):
            n = max(1, int((sub.quick if tier == "quick" else sub.thorough) * scale))
            shards = max(1, min(n, JOBS if tier == "quick" else JOBS * 4))
            for k in range(shards):
                count = n // shards + (1 if k < n % shards else 0)
                tasks.append((check_id, i, derive(seed, check_id, sub.name, k), count, deadline, True))
        # interleave shards of different sub-checks
        tasks.sort(key=lambda t: (t[2] % 97))
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(JOBS, maxtasksperchild=8) as pool:
            for stats in pool.imap_unordered(explore, tasks):
                i = stats["sub"]
                evaluations[i] += stats["evaluations"]
                totals[i] += stats["labels"]
                digests[i] |= stats["digests"]
                truncated |= stats["truncated"]
                discarded += stats["discarded"]
                discard = discard or stats["discard"]
                for s in stats["samples"]:
                    if len(samples[i]) < 2:
                        samples[i].append(s)
                if stats["error"]:
                    errors.append((subs[i].name, stats["error"]))
                    break
                if stats["failure"]:
                    violations.append((subs[i], stats["failure"], {"seed": stats["seed"], "count": stats["count"]}))
                    break
            pool.terminate()

    if discarded > 10 + sum(evaluations) // 10:
        errors.append(("generation of cases", discard))
    elif discard and os.environ.get("VERIF_VERBOSE"):
        print(discard)

    # 4. report
    evidence = {
        "property": check_id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(evaluations) + regressions,
            "distinct_nontrivial": sum(len(d) for d in digests),
            "rule": "; ".join(f"[{s.name}] {s.rule}" for s in subs),
            "samples": [{"sub": s.name, "case": c} for s, cs in zip(subs, samples) for c in cs],
            "regression_cases": regressions,
            "discarded_by_the_generator": discarded,
            "truncated_by_time": truncated,
            "sub_checks": [{"name": s.name, "evaluations": evaluations[i], "distinct_nontrivial": len(digests[i]),
                            "labels": dict(sorted(totals[i].items()))} for i, s in enumerate(subs)],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - started, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{check_id}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)

    if violations:
        sub, failure, info = violations[0]
        path = write_replay(check_id, sub, failure, info)
        code = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), check_id, "--replay", path],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200).returncode
        print(f"sub-check {sub.name}: {failure['kind']}")
        print(failure["message"][:3000])
        print("replayed in a fresh process: " + ("reproduced" if code == 1 else f"exit {code} (depends on the history of the run)"))
        print(f"VIOLATION property={check_id} replay={path}")
        return 1
    if errors:
        print(f"harness error in sub-check {errors[0][0]}:\n{errors[0][1]}")
        return 2
    cov = evidence["coverage"]
    print(f"{check_id} held: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"{evidence['wall_s']} s{' (stopped by the time budget)' if truncated else ''}")
    return 0
