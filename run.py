#!/opt/venv/bin/python
"""Entry point of the simulation checks.

  run.py check C07 [--tier quick|thorough] [--seed N] [--runs N]
  run.py replay FILE
  run.py selftest [--runs N]
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WORKERS = 8
BY_LINE = {"C08", "C09", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"}
sys.path.insert(0, HERE)
TICK = json.load(open(os.path.join(HERE, "dst", "budget.json")))
DETAILS = json.load(open(os.path.join(HERE, "dst", "details.json")))


def hash_seed(seed, pid, w):
    return int(hashlib.sha256(("%s/%s/%s" % (seed, pid, w)).encode()).hexdigest()[:8], 16) % 4294967290 + 1


def env(hs):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e["PYTHONHASHSEED"] = str(hs)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def spawn(args, hs):
    return subprocess.Popen([PY, "-m", "dst.worker"] + args, cwd=HERE, env=env(hs), stdin=subprocess.DEVNULL,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, text=True)


def call(args, hs, timeout):
    """Run a worker command and return its RESULT, or None."""
    p = spawn(args, hs)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None
    for line in out.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    return {"outcome": "died", "data": ["crash:process", "the interpreter ended with status %s: %s" % (p.returncode, err[-300:])], "log": None}


def save(path, doc):
    with open(path, "w") as fh:
        json.dump(doc, fh, indent=1)
        fh.write("\n")


def load_known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as fh:
            return json.load(fh)["findings"]
    except FileNotFoundError:
        return []


def verify(doc, tmp):
    """Does this replay document fail, with its tag, in fresh interpreters?"""
    f = os.path.join(tmp, "verify.json")
    save(f, doc)
    if doc["tag"] == "C02:hash":
        logs = []
        for hs in doc["hash_seeds"]:
            r = call(["case", f], hs, 300)
            logs.append(None if r is None else (r["outcome"], r["log"]))
        return len(set(logs)) > 1
    r = call(["case", f], doc["hash_seeds"][0], 600)
    return r is not None and r["outcome"] in ("violation", "died") and r["data"][0] == doc["tag"]


def report(pid, seed, tier, v, hs, tmp, index_list=None):
    """Minimise, write the replay file, verify it, print the VIOLATION line."""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (pid, seed, v["index"]))
    doc = {"property": pid, "seed": seed, "tier": tier, "index": v["index"], "tag": v["tag"], "message": v["msg"],
           "hash_seeds": hs if isinstance(hs, list) else [hs], "cases": [v["case"]] if v["case"] else []}
    ok = False
    if v["case"]:
        f = os.path.join(tmp, "shrink.json")
        small = None
        if v["tag"] == "C02:hash":
            small = shrink_hash(doc, tmp, 40)
        elif v["tag"] not in ("hang", "crash:process"):
            save(f, doc)
            small = call(["shrink", f, "40"], doc["hash_seeds"][0], 200)
            if small and "case" not in small:
                small = None
        if small:
            d2 = dict(doc, cases=[small["case"]], message=small["msg"], original=doc["cases"][0], minimised_after=small["tried"])
            if verify(d2, tmp):
                doc, ok = d2, True
        if not ok:
            ok = verify(doc, tmp)
    if not ok and index_list:
        # needs what earlier cases left behind in the process
        f = os.path.join(tmp, "history.json")
        save(f, dict(doc, history=index_list))
        r = call(["history", f], doc["hash_seeds"][0], 600)
        if r and r["outcome"] == "violation":
            d2 = dict(doc, cases=r["cases"], tag=r["data"][0], message=r["data"][1])
            d2 = shrink_list(d2, tmp, 60)
            doc, ok = d2, verify(d2, tmp)
    doc["reproduced_in_fresh_process"] = ok
    save(path, doc)
    print("property %s violated (%s): %s" % (pid, doc["tag"], doc["message"]))
    print("seed %s, case %s, PYTHONHASHSEED %s; replay: %s replay %s" % (seed, v["index"], doc["hash_seeds"], os.path.join(HERE, "run.py"), path))
    if not ok:
        print("note: the minimised file did not fail again in a fresh process; the file holds the failing case as found")
    print("VIOLATION property=%s replay=%s" % (pid, path))


def shrink_list(doc, tmp, seconds):
    deadline = time.monotonic() + seconds
    cases = doc["cases"]
    size = len(cases) // 2
    while size >= 1 and time.monotonic() < deadline:
        i = 0
        while i < len(cases) and time.monotonic() < deadline:
            c = cases[:i] + cases[i + size:]
            if c and verify(dict(doc, cases=c), tmp):
                cases = c
            else:
                i += size
        size //= 2
    return dict(doc, cases=cases)


def shrink_hash(doc, tmp, seconds):
    from dst import shrinkops
    deadline = time.monotonic() + seconds
    case, tried = doc["cases"][0], 0
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for c in shrinkops.candidates(case):
            if time.monotonic() > deadline:
                break
            tried += 1
            if verify(dict(doc, cases=[c]), tmp):
                case, progress = c, True
                break
    return {"case": case, "msg": doc["message"], "tried": tried}


def run_workers(pid, seed, tier, count, wall, tmp, known, hash_of, tag, logs=False):
    procs = []
    for w in range(WORKERS):
        out = os.path.join(tmp, "%s-%d.json" % (tag, w))
        a = {"property": pid, "seed": seed, "tier": tier, "start": w, "step": WORKERS, "count": count, "wall": wall,
             "out": out, "known": known, "logs": logs}
        procs.append((w, out, hash_of(w), spawn(["run", json.dumps(a)], hash_of(w))))
    return procs


def collect(procs, deadline):
    results = []
    for w, out, hs, p in procs:
        try:
            _, err = p.communicate(timeout=max(1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            _, err = p.communicate()
            err = "killed after the wall limit\n" + err
        try:
            with open(out) as fh:
                r = json.load(fh)
        except (FileNotFoundError, ValueError):
            r = None
        hb = None
        try:
            with open(out + ".hb") as fh:
                hb = int(fh.read().strip() or -1)
        except (FileNotFoundError, ValueError):
            pass
        results.append((w, hs, p.returncode, r, err, hb))
    return results


def check(pid, tier, seed, runs=None):
    t0 = time.monotonic()
    budget = TICK[pid]
    count = runs or budget[tier]
    wall = 420 if tier == "quick" else 3 * 3600
    known = load_known()
    tmp = tempfile.mkdtemp(prefix="dst-")
    try:
        passes = budget.get("cross_hash", 1)
        all_results = []
        procs = []
        for k in range(passes):
            procs.append(run_workers(pid, seed, tier, count, wall, tmp, known,
                                     (lambda w, k=k: hash_seed(seed, pid, "%d/%d" % (k, w))), "pass%d" % k, logs=passes > 1))
        for p in procs:
            all_results.append(collect(p, t0 + wall + 240))
        return judge(pid, tier, seed, count, passes, all_results, known, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(pid, tier, seed, count, passes, all_results, known, tmp, t0):
    errors, violations = [], []
    total = {"runs": 0, "invalid": 0, "sim_t": 0.0, "evals": 0, "switches": 0, "ops": 0, "stopped_early": 0}
    counters, digests, samples, found = {}, set(), [], {}
    for k, results in enumerate(all_results):
        for w, hs, rc, r, err, hb in results:
            if r is None:
                if rc is not None and rc < 0 and rc != -9 and hb is not None and hb >= 0:
                    violations.append((hb, w, hs, {"index": hb, "tag": "crash:process", "msg": "the interpreter died with signal %d" % -rc, "case": None}))
                else:
                    errors.append("worker %d ended with status %s at case %s: %s" % (w, rc, hb, err[-1500:]))
                continue
            for key in total:
                if key == "stopped_early":
                    total[key] += bool(r.get("stopped_early"))
                else:
                    total[key] += r[key]
            for c, n in r["counters"].items():
                counters[c] = counters.get(c, 0) + n
            digests.update(r["digests"])
            if k == 0:
                samples += r["samples"]
            errors += r["errors"]
            for i, n in r["known"].items():
                found[i] = found.get(i, 0) + n
            if r["violation"]:
                violations.append((r["violation"]["index"], w, hs, r["violation"]))
    if passes > 1 and not violations and not errors:
        violations += cross(pid, seed, tier, all_results, tmp)
    wall = time.monotonic() - t0
    evidence(pid, tier, seed, count, passes, total, counters, digests, samples, len(violations), found, known, wall)
    for i, k in enumerate(known):
        if k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violations:
        violations.sort(key=lambda x: x[0])
        index, w, hs, v = violations[0]
        hist = None if isinstance(hs, list) else [i for i in range(w, index + 1, WORKERS)]
        report(pid, seed, tier, v, hs, tmp, hist)
        return 1
    if errors:
        print("error of the check itself (%d):" % len(errors), file=sys.stderr)
        print("\n".join(errors[:3]), file=sys.stderr)
        return 2
    print("property %s held: %d simulated runs (%d distinct non-trivial), %.0f simulated seconds, %d faults injected, %.1f s wall" % (
        pid, total["runs"], len(digests), total["sim_t"], sum(n for c, n in counters.items() if c.startswith("fault:")), wall))
    return 0


def cross(pid, seed, tier, all_results, tmp):
    """The same cases in interpreters with different hash seeds must give the same event logs."""
    logs = []
    for results in all_results:
        d = {}
        for w, hs, rc, r, err, hb in results:
            for i, x in r["logs"].items():
                d[int(i)] = (x, hs, w)
        logs.append(d)
    for i in sorted(set.union(*[set(d) for d in logs])):
        have = [d[i] for d in logs if i in d]
        if len({x for x, _, _ in have}) > 1:
            a = have[0]
            b = next(x for x in have if x[0] != a[0])
            f = os.path.join(tmp, "gen.json")
            save(f, {"property": pid, "seed": seed, "tier": tier, "history": [i], "cases": []})
            r = call(["history", f], a[1], 300)
            case = r["cases"][0] if r and r.get("cases") else None
            return [(i, a[2], [a[1], b[1]], {"index": i, "tag": "C02:hash", "case": case,
                     "msg": "the same case gives different solution sequences under PYTHONHASHSEED %s and %s" % (a[1], b[1])})]
    return []


def evidence(pid, tier, seed, count, passes, total, counters, digests, samples, nviol, found, known, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")}
    d = DETAILS.get(pid, {})
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(digests),
            "rule": d.get("rule", "") + "  Counted as distinct by the digest of the run's event log (every event and delivered result in order).",
            "samples": samples[:3],
            "planned_cases": count, "hash_seed_passes": passes, "invalid_cases_skipped": total["invalid"],
            "workers_stopped_at_wall_limit": total["stopped_early"],
            "runs_per_hour": int(total["runs"] / max(wall, 1e-9) * 3600),
            "seeds_per_hour": int(total["runs"] / max(wall, 1e-9) * 3600),
            "simulated_seconds": total["sim_t"],
            "scheduler_ops": total["ops"],
            "context_switches_between_actors": total["switches"],
            "constraint_evaluations_under_simulator": total["evals"],
            "distinct_interleavings": len(digests),
            "faults_injected": faults,
            "event_counts": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault:")},
            "real_components": d.get("real", "all of satisfy, unmodified, imported from /repo/src"),
            "simulated_components": d.get("sim", "clocks, random generator seeding, consumers and their schedule"),
            "known_findings_met": {known[int(i)]["what"]: n for i, n in found.items()},
        },
        "assumptions": d.get("assumptions", []),
        "wall_s": wall,
        "violations": nviol,
    }
    save(os.path.join(HERE, "evidence", pid + ".json"), doc)


def replay(path):
    with open(path) as fh:
        doc = json.load(fh)
    tmp = tempfile.mkdtemp(prefix="dst-")
    try:
        if verify(doc, tmp):
            print("reproduced: %s (%s)" % (doc["message"], doc["tag"]))
            print("VIOLATION property=%s replay=%s" % (doc["property"], os.path.abspath(path)))
            return 1
        print("not reproduced on this tree")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def selftest(runs, ids):
    """Determinism: the same seeds, again, at other worker counts and (where no fault is placed at an
    executed line, whose number may depend on set order) under other hash seeds, give the same logs."""
    global WORKERS
    bad = 0
    for pid in ids:
        tmp = tempfile.mkdtemp(prefix="dst-")
        try:
            per = []
            passes = [(8, "a"), (5, "a"), (3, "a"), (8, "a")]
            if pid not in BY_LINE:
                passes += [(8, "b"), (5, "c")]
            for n, (workers, salt) in enumerate(passes):
                WORKERS = workers
                p = run_workers(pid, 7, "quick", runs, 900, tmp, [], lambda w: hash_seed(salt, pid, 0), "s%d" % n, logs=True)
                d = {}
                for w, hs, rc, r, err, hb in collect(p, time.monotonic() + 1000):
                    if r is None or r["errors"]:
                        print("worker failed", pid, rc, err[-500:], r and r["errors"][:1])
                        bad += 1
                        continue
                    if r["violation"]:
                        print("violation in selftest", pid, r["violation"]["tag"], r["violation"]["msg"])
                        bad += 1
                    d.update({int(i): x for i, x in r["logs"].items()})
                per.append(d)
            keys = set.union(*[set(d) for d in per])
            diff = [i for i in sorted(keys) if len({d.get(i) for d in per}) != 1]
            print("%s: %d cases x %d passes, %d differ %s" % (pid, len(keys), len(per), len(diff), diff[:5]))
            bad += len(diff)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("--runs", type=int)
    r = sub.add_parser("replay")
    r.add_argument("file")
    s = sub.add_parser("selftest")
    s.add_argument("--runs", type=int, default=400)
    s.add_argument("ids", nargs="*")
    a = ap.parse_args()
    if a.cmd == "check":
        return check(a.property, a.tier, a.seed, a.runs)
    if a.cmd == "replay":
        return replay(a.file)
    return selftest(a.runs, a.ids or sorted(TICK))


if __name__ == "__main__":
    sys.exit(main())
