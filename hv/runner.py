"""Runs one property: replays, then seeded generated-input search sharded over processes."""

import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 120
SHRINK_S = 45
SUT_DIR = "/repo/hatchet/"


def load_prop(pid):
    return importlib.import_module("hv.props.%s" % pid.lower())


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run_case(mod, spec):
    """(Case, violation message or None)."""
    from .core import Case, Discard, Violation

    case = Case()

    def on_alarm(signum, frame):
        raise Violation("no result within %d s (cases take milliseconds)" % getattr(mod, "CASE_LIMIT_S", CASE_LIMIT_S))

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(getattr(mod, "CASE_LIMIT_S", CASE_LIMIT_S))
    try:
        mod.check(spec, case)
    except Violation as e:
        return case, str(e) or "violated"
    except Discard as e:
        case.excluded = str(e) or "discarded"
        case.nontrivial = False
    except Exception as e:
        # an exception out of hatchet on an input it has to accept
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if any(f.startswith(SUT_DIR) for f in files):
            return case, "raised %s: %s" % (type(e).__name__, str(e)[:500])
        if isinstance(e, (MemoryError, ImportError, OSError)):
            raise
        # a result so odd (None, of another type, lacking a key, ...) that it cannot even be inspected; no check
        # does so on a well-formed result
        where = [f for f in traceback.extract_tb(e.__traceback__) if "/hv/" in f.filename]
        at = " at %s:%d" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else ""
        return case, "the result cannot be inspected%s: %s: %s" % (at, type(e).__name__, str(e)[:300])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return case, None


def max_nodes(spec):
    """Size of the largest graph in a spec."""
    if isinstance(spec, dict):
        return max([len(spec["frames"]) if isinstance(spec.get("frames"), list) else 0] + [max_nodes(v) for v in spec.values()])
    return max([max_nodes(v) for v in spec if isinstance(v, (dict, list))], default=0) if isinstance(spec, list) else 0


def worker(pid, shard, nshards, seed, examples, budget, out):
    """Generate, check and, on a failure, shrink; one shard of the search."""
    from . import strat
    from .core import canon_json, spec_hash

    mod = load_prop(pid)
    strategy = mod.strategy(os.environ.get("VERIF_TIER", "quick"))
    t0 = time.monotonic()
    res = {
        "evaluations": 0,
        "duplicates": 0,
        "nontrivial": [],
        "labels": {},
        "excluded": {},
        "samples": [],
        "violation": None,
        "budget_hit": False,
    }
    nt, seen = set(), set()
    k = 0
    while res["evaluations"] < examples and k < 4 * examples:
        if time.monotonic() - t0 > budget:
            res["budget_hit"] = True
            break
        spec, choices = strat.generate(strategy, "%s/%d/%d/%d" % (pid, seed, shard, k))
        k += 1
        text = canon_json(spec)
        h = spec_hash(spec)
        if h in seen:
            res["duplicates"] += 1
            continue
        seen.add(h)
        spec = json.loads(text)
        case, msg = run_case(mod, spec)
        if msg is not None:
            res["violation"] = shrink_failure(mod, strategy, choices, spec, msg)
            break
        res["evaluations"] += 1
        if case.excluded:
            res["excluded"][case.excluded] = res["excluded"].get(case.excluded, 0) + 1
        if len(text) > 5000 and max_nodes(spec) >= 100:
            case.label("100 or more nodes")
        for l in case.labels:
            res["labels"][l] = res["labels"].get(l, 0) + 1
        if case.nontrivial:
            nt.add(h)
            if len(res["samples"]) < 2 and (len(nt) % 7 == 3 or len(nt) > 20) and len(text) < 4000:
                res["samples"].append(spec)
    res["nontrivial"] = sorted(nt)
    with open(out, "w") as f:
        json.dump(res, f)


def shrink_failure(mod, strategy, choices, spec, msg):
    from . import strat
    from .core import canon_json

    deadline = time.monotonic() + SHRINK_S

    def fails(cand):
        return run_case(mod, json.loads(canon_json(cand)))[1] is not None

    best = strat.shrink(strategy, choices, fails, lambda: time.monotonic() < deadline)
    small = json.loads(canon_json(strat.regenerate(strategy, best)[0]))
    again = 0
    for _ in range(3):
        _, m2 = run_case(mod, small)
        if m2 is not None:
            again += 1
            spec, msg = small, m2
    return {"spec": spec, "message": msg, "reproduced": "%d/3" % again}


def replay_file(pid, path):
    mod = load_prop(pid)
    with open(path) as f:
        d = json.load(f)
    return run_case(mod, d["spec"])


def main(pid, tier, seed, replay=None):
    t0 = time.monotonic()
    mod = load_prop(pid)
    from .core import spec_hash

    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if replay:
        case, msg = replay_file(pid, replay)
        if msg:
            print("violation: %s" % msg)
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        print("replay passes (labels: %s)" % sorted(case.labels))
        return 0

    violations = []
    known = [k for k in known_findings() if k["property"] == pid and k.get("status") == "open"]
    known_seen = []
    replays = 0
    # replay tier: saved inputs of earlier (fixed) findings and planted bugs
    rdir = os.path.join(VERIF, "replays", pid)
    known_files = {os.path.normpath(os.path.join(VERIF, k["replay"])) for k in known if k.get("replay")}
    if os.path.isdir(rdir):
        for name in sorted(os.listdir(rdir)):
            path = os.path.join(rdir, name)
            if os.path.normpath(path) in known_files:
                continue
            replays += 1
            case, msg = replay_file(pid, path)
            if msg:
                violations.append((path, msg, None))
    for k in known:
        path = os.path.join(VERIF, k["replay"])
        case, msg = replay_file(pid, path)
        if msg:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            known_seen.append(k["id"])

    nshards = getattr(mod, "SHARDS", 8)
    total = mod.EXAMPLES[tier]
    budget = {"quick": 240, "thorough": 780}[tier]
    results = []
    if not violations:
        with tempfile.TemporaryDirectory(prefix="hv-%s-" % pid) as tmp:
            procs = []
            for s in range(nshards):
                out = os.path.join(tmp, "out%d.json" % s)
                wtmp = os.path.join(tmp, "w%d" % s)
                os.mkdir(wtmp)
                env = dict(os.environ, TMPDIR=wtmp, VERIF_TIER=tier)
                log = open(os.path.join(tmp, "log%d" % s), "w+")
                p = subprocess.Popen(
                    [
                        sys.executable,
                        os.path.join(VERIF, "run.py"),
                        "--worker",
                        pid,
                        str(s),
                        str(nshards),
                        str(seed),
                        str(max(1, total // nshards)),
                        str(budget),
                        out,
                    ],
                    env=env,
                    cwd=wtmp,
                    stdin=subprocess.DEVNULL,
                    stdout=log,
                    stderr=subprocess.STDOUT,
                    start_new_session=True,
                )
                procs.append((p, out, log))
            deadline = time.monotonic() + budget + 300
            for s, (p, out, log) in enumerate(procs):
                try:
                    p.wait(max(1, deadline - time.monotonic()))
                except subprocess.TimeoutExpired:
                    pass
            for s, (p, out, log) in enumerate(procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                log.seek(0)
                text = log.read()
                log.close()
                if not os.path.exists(out):
                    results.append({"error": "worker %d ended with %s\n%s" % (s, p.returncode, text[-3000:])})
                    continue
                with open(out) as f:
                    results.append(json.load(f))
    for r in results:
        v = r.get("violation")
        if v:
            name = os.path.join(evdir, "replay-%s-%s.json" % (pid, spec_hash(v["spec"])))
            with open(name, "w") as f:
                json.dump({"property": pid, "spec": v["spec"], "message": v["message"]}, f, indent=1)
            violations.append((name, v["message"], v["reproduced"]))
    errors = [r["error"] for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    labels, excluded, nt, samples = {}, {}, set(), []
    evals = 0
    for r in good:
        evals += r["evaluations"]
        nt |= set(r["nontrivial"])
        samples.extend(r["samples"])
        for d, acc in ((r["labels"], labels), (r["excluded"], excluded)):
            for k, n in d.items():
                acc[k] = acc.get(k, 0) + n
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals + replays,
            "distinct_nontrivial": len(nt),
            "rule": mod.RULE,
            "samples": samples[:4],
            "classes": dict(sorted(labels.items())),
            "excluded": excluded,
            "duplicates_skipped": sum(r["duplicates"] for r in good),
            "replayed_saved_cases": replays,
            "known_findings_reproduced": known_seen,
            "shards": len(good),
            "budget_hit": sum(1 for r in good if r["budget_hit"]),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(evdir, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if violations:
        violations.sort(key=lambda v: os.path.getsize(v[0]))
        path, msg, rep = violations[0]
        print("violation: %s%s" % (msg, " (reproduced %s)" % rep if rep else ""))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("harness error in %d of %d workers:\n%s" % (len(errors), len(results), errors[0]))
        return 2
    floor = getattr(mod, "MIN_NONTRIVIAL", {}).get(tier, 1)
    if len(nt) < floor:
        print("harness error: only %d non-trivial cases (need %d)" % (len(nt), floor))
        return 2
    print(
        "%s held on %d cases (%d distinct non-trivial), %.1f s; classes %s%s"
        % (pid, evals, len(nt), time.monotonic() - t0, dict(sorted(labels.items())), " excluded %s" % excluded if excluded else "")
    )
    return 0
