"""Executes cases of one property in this process.  Started by run.py with a chosen PYTHONHASHSEED.

  python -m dst.worker run   <json args>     many seeded cases
  python -m dst.worker case  <file>          the case (or list of cases) in a replay file
  python -m dst.worker shrink <file>         minimise the case in a replay file
"""
import json
import os
import random
import resource
import signal
import sys
import traceback

from . import engine, gen, registry, seams
from .engine import Hang, Violation
from .ref import InvalidCase
from .seams import derive, digest
from .shrinkops import candidates

WALL = 30           # seconds one case may take before it is re-run under a line budget
LINES = 80000000     # executed library lines allowed to one case
MEM = 3 << 30


def _alarm(signum, frame):
    raise Hang()


def setup():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGALRM, _alarm)
    engine.load()


def in_code(e):
    """Did this exception pass through the code under test?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for f, _ in traceback.walk_tb(e.__traceback__):
            if f.f_code.co_filename.startswith(seams.REPO_SRC):
                return True
        e = e.__cause__ or e.__context__
    return False


def heavy(case):
    """Cases known to take long: large pictures, whole classic boards."""
    if case.get("big") or sum(map(len, (case.get("spec") or {}).get("image") or ())) > 2000:
        return True
    return any(p.get("spec", {}).get("k") == "queens" and p["spec"].get("n", 0) >= 7 for p in case.get("puzzles") or () if isinstance(p, dict))


def execute(prop, case, wall=WALL):
    """-> (outcome, data): 'ok' summary | 'violation' (tag, msg) | 'invalid' | 'error' text"""
    random.seed(12345)
    seams.MON.budget = None
    big = 5 if heavy(case) else 1
    wall *= big
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        try:
            return "ok", prop.run(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            seams.MON.stop()
    except Violation as v:
        return "violation", (v.tag, v.msg)
    except InvalidCase as e:
        return "invalid", str(e)
    except Hang:
        pass
    except RecursionError as e:
        return ("violation", ("crash:uncaught", repr(e))) if in_code(e) else ("error", traceback.format_exc())
    except (Exception, KeyboardInterrupt, seams.ProbeAbort, SystemExit) as e:
        if in_code(e):
            return "violation", ("crash:uncaught", "%s: %s" % (type(e).__name__, e))
        return "error", traceback.format_exc()
    # too slow on the wall: decide deterministically, by executed lines
    random.seed(12345)
    seams.MON.budget = seams.Budget(LINES * big)
    seams.MON.start()
    signal.setitimer(signal.ITIMER_REAL, wall * 12)
    try:
        try:
            return "ok", prop.run(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            seams.MON.budget = None
            seams.MON.stop()
    except (seams.StepBudget, Hang) as e:
        return "violation", ("hang", "no progress: more than %d lines executed" % (LINES * big))
    except Violation as v:
        return "violation", (v.tag, v.msg)
    except InvalidCase as e:
        return "invalid", str(e)
    except BaseException as e:
        if in_code(e):
            return "violation", ("crash:uncaught", "%s: %s" % (type(e).__name__, e))
        return "error", traceback.format_exc()


def make_case(prop, seed, index, tier):
    for attempt in range(50):
        rng = derive("case", seed, prop.id, index, attempt)
        try:
            case = gen.share(rng, prop.gen(rng, tier))
            if getattr(prop, "aliases", False):
                case = gen.aliases(rng, case)
            case = prop.prepare(case, rng)
        except InvalidCase:
            continue
        except Violation:
            continue
        finally:
            seams.MON.stop()
        return json.loads(json.dumps(case))
    raise RuntimeError("generator of %s keeps producing invalid cases" % prop.id)


def prepare_guarded(prop, seed, index, tier):
    """make_case, where the dry run inside prepare() may meet a broken code base."""
    try:
        signal.setitimer(signal.ITIMER_REAL, WALL)
        try:
            return "case", make_case(prop, seed, index, tier)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        return "hang", None
    except Exception as e:
        return "error", traceback.format_exc()


def run(args):
    setup()
    seed, tier = args["seed"], args["tier"]
    prop = registry.get(args["property"])
    known = args.get("known", [])
    res = {"runs": 0, "invalid": 0, "counters": {}, "sim_t": 0.0, "evals": 0, "switches": 0, "digests": [], "samples": [],
           "violation": None, "errors": [], "known": {}, "logs": {}, "next": None, "ops": 0}
    digests = set()
    start = seams.real_monotonic()
    heartbeat = os.open(args["out"] + ".hb", os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
    for index in range(args["start"], args["count"], args["step"]):
        if seams.real_monotonic() - start > args["wall"]:
            res["stopped_early"] = True
            break
        os.pwrite(heartbeat, b"%12d" % index, 0)
        what, case = prepare_guarded(prop, seed, index, tier)
        if what == "hang":
            res["violation"] = {"index": index, "tag": "hang", "msg": "the dry run of case %d does not end" % index, "case": None}
            break
        if what == "error":
            res["errors"].append(case)
            if len(res["errors"]) > 3:
                break
            continue
        out, data = execute(prop, case)
        if out == "violation":
            k = match_known(known, prop.id, data, case)
            if k is not None:
                res["known"][k] = res["known"].get(k, 0) + 1
                continue
            res["violation"] = {"index": index, "tag": data[0], "msg": data[1], "case": case}
            break
        if out == "invalid":
            res["invalid"] += 1
            continue
        if out == "error":
            res["errors"].append("case %d: %s" % (index, data))
            if len(res["errors"]) > 3:
                break
            continue
        res["runs"] += 1
        d = digest(data["log"])
        if args.get("logs"):
            res["logs"][index] = d
        if data.get("nontrivial"):
            digests.add(digest((d, data["key"])) if "key" in data else d)
            if len(res["samples"]) < 1 and index < 400:
                res["samples"].append({"index": index, "case": case, "log": [repr(x) for x in data["log"][:12]]})
        for k, v in data["counters"].items():
            res["counters"][k] = res["counters"].get(k, 0) + v
        res["sim_t"] += data.get("t", 0.0)
        res["evals"] += data.get("evals", 0)
        res["switches"] += data.get("switches", 0)
        res["ops"] += len(case.get("ops", ()))
    res["digests"] = sorted(digests)
    res["wall"] = seams.real_monotonic() - start
    with seams.real_open(args["out"], "w") as fh:
        json.dump(res, fh)
    os.close(heartbeat)


def match_known(known, pid, data, case):
    for i, k in enumerate(known):
        if k["property"] == pid and k["tag"] == data[0] and (k.get("contains") or "") in data[1]:
            return str(i)
    return None


def run_replay(doc):
    """Execute a replay document; -> (outcome, data, log digest)"""
    prop = registry.get(doc["property"])
    out = ("ok", None)
    for case in doc["cases"]:
        out = execute(prop, case, wall=60)
        if out[0] == "violation":
            break
    log = digest(out[1]["log"]) if out[0] == "ok" else None
    return out[0], out[1] if out[0] != "ok" else None, log


# ------------------------------------------------------------------ minimisation
def shrink(doc, seconds):
    prop = registry.get(doc["property"])
    case = doc["cases"][-1]
    tag = doc["tag"]
    deadline = seams.real_monotonic() + seconds
    tried = 0

    def bad(c):
        nonlocal tried
        tried += 1
        out, data = execute(prop, c, wall=5)
        return out == "violation" and data[0] == tag
    if not bad(case):
        return None
    seen = set()
    progress = True
    while progress and seams.real_monotonic() < deadline:
        progress = False
        for c in candidates(case):
            if seams.real_monotonic() > deadline:
                break
            d = digest(c)
            if d in seen:
                continue
            seen.add(d)
            try:
                if bad(c):
                    case = c
                    progress = True
                    break
            except Exception:
                continue
    out, data = execute(prop, case)
    if out != "violation":
        return None
    return {"case": case, "tag": data[0], "msg": data[1], "tried": tried}


def main(argv):
    what = argv[0]
    if what == "run":
        run(json.loads(argv[1]))
        return 0
    setup()
    with seams.real_open(argv[1]) as fh:
        doc = json.load(fh)
    if what == "case":
        out, data, log = run_replay(doc)
        print("RESULT " + json.dumps({"outcome": out, "data": data, "log": log}))
        return 0
    if what == "history":
        prop = registry.get(doc["property"])
        doc["cases"] = []
        for index in doc["history"]:
            w, c = prepare_guarded(prop, doc["seed"], index, doc["tier"])
            if w == "case":
                doc["cases"].append(c)
        # the cases were generated up front; run them in order
        out, data, log = run_replay(doc)
        print("RESULT " + json.dumps({"outcome": out, "data": data, "log": log, "cases": doc["cases"]}))
        return 0
    if what == "shrink":
        r = shrink(doc, float(argv[2]))
        print("RESULT " + json.dumps(r))
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
