"""Searches in several real threads of which exactly one runs at a time.

The schedule is part of the case: a list of [thread, n]: that thread runs for n line (or bytecode)
events inside satisfy, then it is parked.  When the list is used up the remaining threads run to
their end one after the other.
"""
import _thread
import random
import threading

from . import engine, gen, ref, seams
from .engine import RealModel, S, Violation, World
from .ref import InvalidCase

Q = 1.0 / 64


def gen_case(rng, tier):
    n = rng.choice([2, 2, 3])
    shared = gen.model(rng, nmax=4, size_cap=60, consmax=4, kinds=("expr", "linear", "alldiff", "unary", "probe"), nmin=2, nparams=rng.choice([0, 1]))
    models = [shared]
    threads = []
    pols = [p for p in gen.POLICIES if p != "RANDOM"]
    for t in range(n):
        s = gen.solver(rng, policy=rng.choice(pols), limit=rng.choice([None, None, None, 1, 3]))
        job = {"mid": 0, "kind": "solve", "solver": s}
        if rng.random() < 0.3:
            models.append(gen.model(rng, nmax=3, size_cap=40, consmax=3, kinds=("expr", "linear", "alldiff"), nmin=1))
            job["mid"] = len(models) - 1
            job["kind"] = rng.choice(["opt", "opt", "optsol", "solve"])
        elif rng.random() < 0.3:
            job["kind"] = rng.choice(["opt", "optsol"])
        if job["kind"] != "solve":
            vs = [v["n"] for v in models[job["mid"]]["vars"]]
            job["obj"] = [[rng.choice(["min", "max"]), ["sum"] + [["mul", ["v", v], ["c", rng.choice([1, 2, -1, 3])]] for v in vs]]]
        if rng.random() < 0.3:
            job["repeat"] = 2
        if rng.random() < 0.2:
            job["stop"] = rng.randint(1, 4)
        threads.append(job)
    # sharers agree on compilation: what one of them does to the constraints the others may see
    for job in threads:
        if job["mid"] == 0:
            job["solver"]["compile"] = threads[0]["solver"]["compile"]
    grain = rng.choice(["line", "line", "line", "instr"])
    switch = []
    scale = rng.choice([3, 12, 60, 200, 200]) * (6 if grain == "instr" else 1)
    for _ in range(rng.randint(2, 60)):
        switch.append([rng.randrange(n), rng.randint(1, scale)])
    return {"models": models, "threads": threads, "switch": switch, "grain": grain, "solvers": [], "ops": []}


class Sched:
    def __init__(self, n, switch, first_log):
        self.n = n
        self.switch = list(switch)
        self.pos = 0
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.tid = {}
        self.cur = None
        self.left = None            # events until the next preemption; None: run to the end
        self.preempted = 0
        self.done = threading.Event()
        self.free = False
        self.events = 0

    def pick(self):
        """Next slice: sets cur and left."""
        while self.pos < len(self.switch):
            t, k = self.switch[self.pos]
            self.pos += 1
            if 0 <= t < self.n and self.alive[t] and k > 0:
                self.left = k
                return t
        self.left = None
        for t in range(self.n):
            if self.alive[t]:
                return t
        return None

    def hook(self, code, line):
        if self.free:
            return
        me = self.tid.get(_thread.get_ident())
        if me is None or me != self.cur:
            return
        self.events += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        t = self.pick()
        if t == me:
            return
        self.preempted += 1
        self.cur = t
        self.sem[t].release()
        self.sem[me].acquire()

    def finish(self, me):
        self.alive[me] = False
        if self.free:
            if not any(self.alive):
                self.done.set()
            return
        t = self.pick()
        if t is None:
            self.done.set()
        else:
            self.cur = t
            self.sem[t].release()


def job_run(job, rm, solver, out):
    S = engine.S
    for r in range(max(1, job.get("repeat", 1))):
        got = []
        out.append(got)
        if job["kind"] == "solve":
            for i, sol in enumerate(solver.solve(rm.m)):
                got.append(rm.canon(sol))
                if job.get("stop") and i + 1 >= job["stop"]:
                    break
            continue
        objs = [(S.Minimize if s == "min" else S.Maximize)(S.Expression.coerce(ref.build(e, rm.var_obj, rm.param_obj, S.Const, rm.memo and dict(rm.memo)))) for s, e in job["obj"]]
        if job["kind"] == "opt":
            for i, o in enumerate(solver.optimize(rm.m, objs)):
                got.append(rm.canon(o.solution))
                if job.get("stop") and i + 1 >= job["stop"]:
                    break
        else:
            o = solver.optimal_solution(rm.m, objs)
            got.append((o.is_optimal, o.solution and rm.canon(o.solution)))


def make_solver(s):
    return engine.S.Solver(var_selection_policy=engine.S.Policy[s["policy"]], timeout=None, limit=s.get("limit"), compile_constraints=s.get("compile", True))


def run_case(case, prop):
    w = World({"models": [], "solvers": [], "ops": []}, prop.accepts())
    models = [RealModel(w, m) for m in case["models"]]
    jobs = case["threads"]
    if not jobs or any(j["mid"] >= len(models) for j in jobs):
        raise InvalidCase("threads")
    if any(len(x) != 2 for x in case["switch"]):
        raise InvalidCase("schedule")
    if len({j["solver"].get("compile", True) for j in jobs if j["mid"] == 0}) > 1:
        raise InvalidCase("sharers disagree on compilation")
    if any(j["kind"] != "solve" and not j.get("obj") for j in jobs):
        raise InvalidCase("objective")
    solvers = [make_solver(j["solver"]) for j in jobs]
    # what each delivers alone, on fresh objects
    alone = []
    for j in jobs:
        rm = RealModel(w, case["models"][j["mid"]])
        out = []
        try:
            job_run(j, rm, make_solver(j["solver"]), out)
        except (ArithmeticError, MemoryError) as e:
            raise InvalidCase("fails alone: %r" % e)
        alone.append(out)
    outs = [[] for _ in jobs]
    errs = [None] * len(jobs)
    sched = Sched(len(jobs), case["switch"], w.ev)

    def body(t):
        sched.sem[t].acquire()
        try:
            job_run(jobs[t], models[jobs[t]["mid"]], solvers[t], outs[t])
        except BaseException as e:
            errs[t] = e
        finally:
            sched.finish(t)
    ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(len(jobs))]
    for t, th in enumerate(ths):
        th.start()
        sched.tid[th.ident] = t
    seams.MON.start(sched.hook, case.get("grain", "line"))
    try:
        first = sched.pick()
        sched.cur = first
        sched.sem[first].release()
        if not sched.done.wait(15):
            sched.free = True
            for s in sched.sem:
                s.release()
            if not sched.done.wait(5):
                raise engine.Hang()
    finally:
        seams.MON.stop()
    for th in ths:
        th.join(5)
    for t, j in enumerate(jobs):
        w.ev("thread", t, outs[t], repr(errs[t]))
        if errs[t] is not None:
            w.fail("C08:thread_error", "the search in thread %d failed with %r; alone it delivers %r" % (t, errs[t], alone[t]))
        if outs[t] != alone[t]:
            w.fail("C08:thread_differs", "the search in thread %d delivered %r next to other threads, but %r alone" % (t, outs[t], alone[t]))
        if j["kind"] == "solve" and j["solver"].get("limit") is None and not j.get("stop"):
            p = models[j["mid"]].problem()
            if not p.must_fail and set(outs[t][-1]) != p.solset:
                w.fail("C08:thread_wrong", "the search in thread %d delivered %r, the solutions are %r" % (t, outs[t][-1], p.sols))
        st = solvers[t].get_stats()
        if j["kind"] != "optsol" and st.count != len(outs[t][-1]):
            w.fail("C08:thread_stats", "the search in thread %d delivered %d solutions, its solver counts %r" % (t, len(outs[t][-1]), st.count))
        w.count("thread_solutions", len(outs[t][-1]))
    w.models = models
    w.finish()
    w.count("fault:thread_preemption", sched.preempted)
    w.switches += sched.preempted
    w.count("thread_runs")
    r = w.result()
    r["key"] = [sched.preempted, sched.events, case["switch"]]
    r["nontrivial"] = sched.preempted >= 2 and any(o and o[-1] for o in outs)
    return r
