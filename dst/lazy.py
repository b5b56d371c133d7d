"""C21: searches work on demand.

Huge search spaces (far too large to enumerate), of two sorts whose cost per solution is known from
their construction alone:

  open    no dead ends: whatever prefix of the variables is assigned, in whatever order, some value of
          the next one fits.  Every next solution costs at most one look at every candidate value.
  desert  under the ordered (reversed) policy the first `ahead` leaves are solutions and no other is:
          the first `ahead` solutions are cheap, one more costs the whole space.

The consumers only ask for what is cheap; every request must then finish within a bound on
constraint evaluations and on executed lines.  Nothing here measures real time.
"""
import gc
import random
import sys

from . import cli, engine, gen, puzzles, ref, seams
from .engine import RealModel, Violation, World
from .ref import InvalidCase
from .sessions import Prop

Q = 1.0 / 64
SLACK = 8               # times the evaluations a plain depth-first search needs
LINES = 200             # executed lines allowed per evaluation allowed
LINES0 = 100000


class Wide(ref.Problem):
    """A problem that is only ever asked whether an assignment satisfies it."""
    MAX = float("inf")

    def _run(self):
        raise AssertionError("not enumerable")


class Search:
    def __init__(self, key, kind, rm, spec, kw):
        self.key, self.kind, self.rm, self.spec, self.kw = key, kind, rm, spec, kw
        self.gen = None
        self.n = 0
        self.done = None
        self.last = None
        self.seen = []
        self.search = 0.0
        self.values = []


class LazyWorld(World):
    def __init__(self, case):
        super().__init__({"models": [], "solvers": [], "ops": [], "clock": case.get("clock", {}), "faults": {}})
        self.lcase = case
        self.eval_cost = case.get("eval_cost", 0.0)
        self.left = None            # evaluations still allowed to the current request
        self.kbd_at = None
        self.act = None             # the Search being advanced
        self.wstalls = {int(k): v for k, v in case.get("stalls", {}).items()}

    # the simulator's constraints call this
    def on_eval(self):
        self.nevals += 1
        cost = self.eval_cost
        st = self.wstalls.get(self.nevals)
        if st:
            cost += st
            self.count("fault:stall")
        if cost:
            self.clock.advance(cost)
            if self.act is not None:
                self.act.search += cost
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise seams.StepBudget("more evaluations than allowed")
        if self.kbd_at is not None:
            self.kbd_at -= 1
            if self.kbd_at == 0:
                self.kbd_at = None
                self.count("fault:interrupt")
                self.kbd = KeyboardInterrupt("injected")
                raise self.kbd

    def bounded(self, what, evals, fn, act=None):
        """fn() within the bound: ('ok'|'stop'|'exc', value)"""
        self.left = evals
        self.act = act
        mon = seams.MON
        keep = mon.budget
        b = mon.budget = seams.Budget(LINES0 + LINES * evals)
        mon.start()
        before = self.nevals
        try:
            return "ok", fn()
        except StopIteration as e:
            return "stop", e
        except seams.StepBudget:
            n = self.nevals - before
            over = True
        except (Violation, InvalidCase, engine.Hang):
            raise
        except BaseException as e:
            if b.n > b.limit or self.left < 0:
                n, over = self.nevals - before, True
            else:
                return "exc", e
        finally:
            mon.budget = keep
            mon.stop()
            self.left = None
            self.act = None
        if keep is not None and keep.n > keep.limit:
            raise seams.StepBudget("more than %d lines executed" % keep.limit)
        if over:
            self.fail("C21:work", "%s went on beyond %d constraint evaluations or %d executed lines (allowed: %d and %d)" % (
                what, n, b.n - 1, evals, b.limit))
            raise InvalidCase("other property")

    # ------------------------------------------------------------------ models
    def run(self):
        S = engine.S
        case = self.lcase
        self.sv = []
        self.rms = []
        self.searches = {}
        self.pz = []
        for m in case.get("models", ()):
            self.check_model(m)
            self.rms.append(self.must("building a model", self.size(m), lambda: RealModel(self, m)))
        for s in case.get("solvers", ()):
            self.sv.append(self.make_solver(s))
        for p in case.get("puzzles", ()):
            self.pz.append(self.puzzle(p))
        for op in case["ops"]:
            h = getattr(self, "lop_" + op[0], None)
            if h is None:
                raise InvalidCase("op")
            h(*op[1:])
        return self

    def must(self, what, evals, fn, act=None):
        k, v = self.bounded(what, evals, fn, act)
        if k != "ok":
            self.fail("crash:lazy", "%s raised %r" % (what, v))
            raise InvalidCase("crash")
        return v

    @staticmethod
    def size(m):
        """Evaluations a depth-first search may take between two solutions, with slack."""
        n = sum(len(ref.dom_values(v)) for v in m["vars"])
        return SLACK * (n + 2) * (len(m["cons"]) + 1)

    def check_model(self, m):
        """The promise the bounds rest on (shrinking may break it)."""
        doms = {v["n"]: ref.dom_values(v) for v in m["vars"]}
        if any(not d for d in doms.values()) or len(doms) != len(m["vars"]):
            raise InvalidCase("domains")
        used = set()
        for c in m["cons"]:
            if any(v not in doms for v in ref.con_vars(c)):
                raise InvalidCase("variables")
            f = c.get("free")
            if f is None:
                raise InvalidCase("not marked")
            if f == "true":
                if c["k"] == "probe" and c.get("e") is None:
                    continue
                if c["k"] == "expr":
                    continue        # generated to hold everywhere; delivered solutions are checked anyway
                raise InvalidCase("free")
            if f == "alldiff":
                vs = c["v"]
                ds = {tuple(doms[v]) for v in vs}
                if c["k"] != "alldiff" or used & set(vs) or len(ds) != 1 or len(vs) > len(doms[vs[0]]):
                    raise InvalidCase("alldiff")
                used |= set(vs)
            elif f == "ne":
                pass
            elif f == "desert":
                if m.get("sort") != "desert" or set(ref.con_vars(c)) != set(doms):
                    raise InvalidCase("desert")
        deg = {}
        for c in m["cons"]:
            if c.get("free") == "ne":
                vs = ref.con_vars(c)
                if len(vs) != 2 or set(vs) & used or c["e"][0] != "ne" or any(x[0] != "v" for x in c["e"][1:]):
                    raise InvalidCase("ne")
                for v in vs:
                    deg[v] = deg.get(v, 0) + 1
        if any(n >= len(doms[v]) for v, n in deg.items()):
            raise InvalidCase("ne")
        if m.get("sort") == "desert":
            if sum(c["free"] == "desert" for c in m["cons"]) != 1 or len(used) or deg:
                raise InvalidCase("desert")

    def lop_open(self, key, kind, sid, mid, args):
        if key in self.searches or sid >= len(self.sv) or mid >= len(self.rms):
            raise InvalidCase("open")
        S = engine.S
        rm, sv = self.rms[mid], self.sv[sid]
        m = self.lcase["models"][mid]
        cfg = self.lcase["solvers"][sid]
        kw = {}
        pol, lim, to = cfg["policy"], cfg.get("limit"), cfg.get("timeout")
        if "policy" in args:
            pol = args["policy"]
            kw["var_selection_policy"] = S.Policy[pol]
        if "limit" in args:
            lim = args["limit"]
            kw["limit"] = self.inf(lim)
        if "timeout" in args:
            to = args["timeout"]
            kw["timeout"] = self.inf(to)
        sr = Search(key, kind, rm, m, kw)
        sr.pol, sr.limit, sr.timeout, sr.sid = pol, None if lim == "inf" else lim, None if to == "inf" else to, sid
        sr.doms = [ref.dom_values(v) for v in m["vars"]]
        sr.problem = Wide(rm.vars, rm.cons, rm.params, True)
        sr.obj = args.get("obj")
        if args.get("extra"):
            for c in args["extra"]:
                if c["k"] != "probe" or c.get("e") is not None or any(v not in rm.var_obj for v in c["v"]):
                    raise InvalidCase("extra")
            sr.kw["additional_constraints"] = [rm.make_con(c) for c in args["extra"]]
        sr.bound = self.size(m) + SLACK * len(args.get("extra", ())) * (sum(map(len, sr.doms)) + 2)
        random.seed(args.get("seed", 1))
        if kind == "solve":
            fn = lambda: iter(sv.solve(rm.m, **kw))
        elif kind == "iter":
            if kw:
                raise InvalidCase("iter")
            fn = lambda: iter(S.ModelSolver(model=rm.m, solver=sv))
        elif kind in ("opt", "best"):
            objs = self.objectives(rm, sr.obj)
            if kind == "opt":
                fn = lambda: iter(sv.optimize(rm.m, objs, **kw))
            else:
                sr.best = lambda: sv.optimal_solution(rm.m, objs, **kw)
                fn = None
        else:
            raise InvalidCase("kind")
        self.searches[key] = sr
        self.check_allowed(sr)
        sr.t0 = self.clock.t
        if fn is not None:
            sr.gen = self.must("opening search %s" % key, sr.bound, fn)
        self.ev("open", key, kind)
        self.count("opened")

    def check_allowed(self, sr):
        """How many solutions are cheap to get?"""
        m = sr.spec
        if m.get("sort") == "desert":
            sr.cheap = m["ahead"] if sr.pol == m["order"] else 0
            if sr.kind in ("opt", "best"):
                sr.cheap = min(sr.cheap, 1)
        else:
            sr.cheap = float("inf")
            if sr.kind in ("opt", "best"):
                last = m["vars"][-1 if sr.pol == "ORDERED" else 0]
                d = ref.dom_values(last)
                s, e = sr.obj[0]
                sr.cheap = 1
                if sr.pol in ("ORDERED", "REVERSED") and len(sr.obj) == 1 and s == "max" and e == ["v", last["n"]] and d == sorted(d) \
                        and not any(last["n"] in ref.con_vars(c) and c["free"] != "true" for c in m["cons"]):
                    sr.cheap = len(d)
        if sr.limit is not None and sr.limit <= sr.cheap:
            sr.cheap = float("inf")     # the end is cheap too

    def allowed(self, sr, what):
        """Evaluations the next request may take; refuses requests that may rightly take forever."""
        ok = sr.n + 1 <= sr.cheap or sr.done is not None
        bound = sr.bound
        if not ok:
            if sr.timeout is not None and self.eval_cost > 0 and self.metered(sr) and sr.timeout < 1e5:
                bound += int(max(0.0, sr.timeout - sr.search) / self.eval_cost) + 1
            elif self.kbd_at is not None and self.metered(sr):
                bound += self.kbd_at
            else:
                raise InvalidCase("that may take forever")
        return bound

    @staticmethod
    def metered(sr):
        """Does every leaf of the search tree cost an evaluation the simulator sees?"""
        m = sr.spec
        return m.get("sort") == "desert" and (sr.kind not in ("opt", "best") or m["ahead"] == 0 and sr.pol == m["order"]) and \
            any(c["free"] == "desert" and c["k"] == "probe" for c in m["cons"])

    def request(self, sr):
        """One request for a solution."""
        b = self.allowed(sr, "next")
        if self.prev_actor is not None and self.prev_actor != sr.key:
            self.switches += 1
        self.prev_actor = sr.key
        self.kbd = None
        k, v = self.bounded("request %d to search %s (%s)" % (sr.n + 1, sr.key, self.describe(sr)), b, lambda: next(sr.gen), sr)
        if k == "exc":
            if v is not self.kbd:
                self.fail("crash:lazy", "request %d to search %s raised %r" % (sr.n + 1, sr.key, v))
            sr.done = "interrupt"
            self.ev(sr.key, "interrupted")
            return False
        if self.kbd is not None:
            self.fail("C09:swallowed", "search %s swallowed the injected interrupt" % sr.key)
        if sr.done is not None:
            if k == "ok":
                self.fail("C21:after_end", "search %s delivered after its end" % sr.key)
            return False
        if k == "stop":
            sr.done = "end"
            self.ev(sr.key, "end", sr.n)
            self.judge_stop(sr)
            return False
        self.judge_sol(sr, v.solution if sr.kind == "opt" else v)
        return True

    def describe(self, sr):
        n = 1
        for d in sr.doms:
            n *= len(d)
        return "%s, %d variables, %.0e assignments" % (sr.spec.get("sort"), len(sr.doms), n)

    def values_of(self, sr, sol):
        if not isinstance(sol, dict) or len(sol) != len(sr.rm.vars):
            return None
        try:
            return tuple(sol[sr.rm.real_name[v["n"]]] for v in sr.rm.vars)
        except KeyError:
            return None

    def judge_sol(self, sr, sol):
        vals = self.values_of(sr, sol)
        self.count("solutions")
        sr.n += 1
        if vals is None or any(x not in d for x, d in zip(vals, sr.doms)) or not sr.problem.satisfies(vals):
            self.fail("C21:unsound", "search %s delivered %r, which is not a solution" % (sr.key, sol))
            return
        if sr.n <= 12:
            self.ev(sr.key, vals)
            if sr.kind != "opt" and vals in sr.seen:
                self.fail("C21:repeat", "search %s delivered %r twice" % (sr.key, vals))
            sr.seen.append(vals)
        if sr.pol in ("ORDERED", "REVERSED") and sr.last is not None:
            d = 1 if sr.pol == "ORDERED" else -1
            for a, b, dom in list(zip(sr.last, vals, sr.doms))[::d]:
                if a != b:
                    if dom.index(a) > dom.index(b):
                        self.fail("C21:order", "search %s (%s) delivered %r after %r" % (sr.key, sr.pol, vals, sr.last))
                    break
            else:
                self.fail("C21:repeat", "search %s delivered %r twice" % (sr.key, vals))
        if sr.kind == "opt":
            env = dict(zip(sr.problem.names, vals))
            ov = [ref.ev(e, env, {}) for _, e in sr.obj]
            if sr.values and not self.better(sr.obj, ov, sr.values[-1]):
                self.fail("C21:no_improvement", "optimisation %s delivered %r after %r" % (sr.key, ov, sr.values[-1]))
            sr.values = [ov]
        sr.last = vals
        if sr.limit is not None and sr.n > sr.limit:
            self.fail("C21:limit", "search %s limited to %r delivered %d solutions" % (sr.key, sr.limit, sr.n))

    def judge_stop(self, sr):
        """These spaces cannot be exhausted: only a limit or a timeout may end the search."""
        if sr.limit is not None and sr.n == sr.limit:
            return
        if sr.timeout is not None and sr.search > sr.timeout:
            return
        m = sr.spec
        if m.get("sort") == "desert" and (sr.n >= m["ahead"] or sr.kind == "opt"):
            return                  # a cleverer search may have seen that nothing is left
        if sr.kind == "opt":
            return
        self.fail("C21:gave_up", "search %s (%s) ended after %d solutions, with more to come and no limit or timeout reached" % (
            sr.key, self.describe(sr), sr.n))

    # ------------------------------------------------------------------ ops
    def get(self, key):
        sr = self.searches.get(key)
        if sr is None:
            raise InvalidCase("key")
        return sr

    def lop_take(self, key, n):
        sr = self.get(key)
        if sr.gen is None or sr.done == "closed":
            return
        for _ in range(n):
            if not self.request(sr):
                break

    def lop_drain(self, key):
        sr = self.get(key)
        if sr.limit is None and sr.timeout is None:
            raise InvalidCase("drain")
        if sr.limit is None and sr.cheap > 0 and self.eval_cost <= 0:
            raise InvalidCase("drain")
        self.lop_take(key, 3000)

    def lop_kbd(self, key, n):
        """An interrupt after n more evaluations, while a solution is being looked for."""
        sr = self.get(key)
        if sr.gen is None or sr.done is not None or n < 1:
            return
        self.kbd_at = n
        try:
            self.request(sr)
        finally:
            self.kbd_at = None

    def lop_close(self, key):
        sr = self.get(key)
        if sr.gen is None or sr.done == "closed":
            return
        g, sr.gen = sr.gen, None
        sr.done = "closed"
        self.count("fault:abandoned")
        self.must("closing search %s" % key, sr.bound, g.close)

    def lop_drop(self, key):
        sr = self.get(key)
        if sr.gen is None or sr.done == "closed":
            return
        sr.done = "closed"
        self.count("fault:abandoned")

        def fn():
            sr.gen = None
        self.must("dropping search %s" % key, sr.bound, fn)

    def lop_dwell(self, dt):
        self.clock.advance(dt)

    def lop_wall(self, d):
        self.clock.step_wall(d)

    def lop_stats(self, sid):
        if sid >= len(self.sv):
            raise InvalidCase("stats")
        self.must("reading the statistics", 10, self.sv[sid].get_stats)

    def lop_best(self, key):
        """A whole optimisation, bounded by its limit or timeout."""
        sr = self.get(key)
        if sr.kind != "best" or sr.done is not None:
            return
        n = min(sr.limit if sr.limit is not None else 10 ** 6, 10 ** 6)
        if not (sr.limit is not None and sr.cheap == float("inf")):
            n = 1
            self.need_timeout(sr)
        b = (n + 1) * sr.bound
        if sr.timeout is not None and self.eval_cost > 0 and sr.timeout < 1e5:
            b += int(sr.timeout / self.eval_cost) + 1
        sr.done = "end"
        self.kbd = None
        o = self.must("optimisation %s (%s, limit %r, timeout %r)" % (sr.key, self.describe(sr), sr.limit, sr.timeout), b, sr.best, sr)
        self.count("optimised")
        sol = o.solution
        self.ev(sr.key, "best", o.is_optimal, sol is not None)
        if sol is None:
            if o.is_optimal:
                self.fail("C21:claim", "optimisation %s claims optimality without a solution" % sr.key)
            return
        vals = self.values_of(sr, sol)
        if vals is None or any(x not in d for x, d in zip(vals, sr.doms)) or not sr.problem.satisfies(vals):
            self.fail("C21:unsound", "optimisation %s returned %r, which is not a solution" % (sr.key, sol))
            return
        env = dict(zip(sr.problem.names, vals))
        if sr.spec.get("sort") == "open" and o.is_optimal and len(sr.obj) == 1 and sr.obj[0][1][0] == "v":
            s, e = sr.obj[0]
            v = next(v for v in sr.spec["vars"] if v["n"] == e[1])
            best = (max if s == "max" else min)(ref.dom_values(v))
            if env[e[1]] != best and not any(e[1] in ref.con_vars(c) and c["free"] != "true" for c in sr.spec["cons"]):
                self.fail("C21:claim", "optimisation %s claims that %r is the best value of a variable whose domain holds %r" % (sr.key, env[e[1]], best))

    def need_timeout(self, sr):
        if sr.timeout is None or self.eval_cost <= 0 or not self.metered(sr) or sr.timeout >= 1e5:
            raise InvalidCase("that may take forever")

    def lop_stream(self, key, n1, n2):
        """A consumer that forgets each solution: what the search keeps must not grow with their number."""
        sr = self.get(key)
        if sr.kind not in ("solve", "iter") or sr.gen is None or sr.done is not None or sr.spec.get("sort") != "open" or sr.limit is not None or sr.timeout is not None:
            return
        if not 50 <= n1 <= 600 or not 100 <= n2 <= 5000:
            raise InvalidCase("stream")
        for _ in range(n1):
            if not self.request(sr):
                return
        gc.collect()
        b0 = sys.getallocatedblocks()
        for _ in range(n2):
            if not self.request(sr):
                return
        gc.collect()
        grown = sys.getallocatedblocks() - b0
        self.count("streams")
        if grown > n2 // 2 + 200:
            self.fail("C21:hoard", "search %s holds on to memory for solutions its consumer has forgotten: %d more memory blocks after %d more solutions" % (sr.key, grown, n2))

    # ------------------------------------------------------------------ puzzles
    def puzzle(self, p):
        S = engine.S
        A = puzzles.load()
        a = p.get("args", {})
        args = {}
        if "limit" in a:
            args["limit"] = self.inf(a["limit"])
        if "policy" in a:
            args["var_selection_policy"] = S.Policy[a["policy"]]
        if "compile" in a:
            args["compile_constraints"] = a["compile"]
        k = p["k"]
        if k == "graph":
            n, edges, labels = p["n"], p["edges"], p["labels"]
            deg = {}
            for x, y in edges:
                if x == y or not 0 <= x < n or not 0 <= y < n:
                    raise InvalidCase("graph")
                deg[x] = deg.get(x, 0) + 1
                deg[y] = deg.get(y, 0) + 1
            if n < 1 or n > 120 or any(d >= len(labels) for d in deg.values()) or len(set(map(str, labels))) != len(labels) or not labels:
                raise InvalidCase("graph")
            g = A.nx.Graph()
            g.add_nodes_from(range(n))
            g.add_edges_from(edges)
            make = lambda: A.graph(g, labels, **args)
            size = n * len(labels) * (1 + max(deg.values(), default=0))

            def ok(s):
                return isinstance(s, dict) and set(s) == set(range(n)) and all(x in labels for x in s.values()) and all(s[x] != s[y] for x, y in edges)
            lim = None
        elif k == "sudoku":
            if a.get("policy") in ("RANDOM", None) or not 0 <= p["blank"] <= 81:
                raise InvalidCase("sudoku")
            grid = [[0] * 9 for _ in range(9)]
            make = lambda: A.sudoku(grid, **args)
            size = 81 * 9 * 2

            def ok(s):
                try:
                    puzzles.Sudoku.canon({"grid": grid}, s, None)
                    return True
                except puzzles.Wrong:
                    return False
            lim = 1
        elif k == "map":
            # strips of `cols` regions each, separated by blank lines: every region touches at most two others
            rows, cols = p["rows"], p["cols"]
            if not 1 <= rows <= 12 or not 1 <= cols <= 12:
                raise InvalidCase("map")
            text = "\n".join("".join("AB"[j % 2] * p.get("w", 1) for j in range(cols)) + "\n" for _ in range(rows))
            lines, tags = text.split("\n"), {}
            make = lambda: A.map(text, list(puzzles.COLORS[:4]), **args)
            size = rows * cols * 6 * 4

            def ok(s):
                try:
                    puzzles.Map.read({"map": lines, "colors": puzzles.COLORS[:4]}, [list(r) for r in s], tags)
                    return True
                except puzzles.Wrong:
                    return False
            lim = 1
        elif k == "crypt":
            # any nine or ten different digits in any order will nearly do
            spec = {"k": "cryptarithm", "e": p["e"], "zeros": True, "style": 0}
            letters = {ch for w in puzzles.words(p["e"]) for ch in w}
            if not 8 <= len(letters) <= 10 or not all("A" <= ch <= "Z" for ch in letters) or len(p["e"]) != 3 or \
                    p["e"][0] not in ("<", ">", "!=") or p["e"][0] != "!=" and (any(len(w) > 1 for w in puzzles.words(p["e"])) or len(puzzles.words(p["e"][1 if p["e"][0] == "<" else 2])) > 3):
                raise InvalidCase("crypt")
            text = puzzles.render(p["e"], 0)
            make = lambda: A.crypt(text, avoid_leading_zeros=False, **args)
            size = 1500

            def ok(s):
                try:
                    puzzles.Crypt.canon(spec, s, None)
                    return True
                except puzzles.Wrong:
                    return False
            lim = None
        else:
            raise InvalidCase("puzzle")
        obj = self.must("building the %s" % k, SLACK * size, make)
        if "limit" in a:
            lim = None if a["limit"] == "inf" else lim if a["limit"] is None else a["limit"]
        return {"obj": obj, "ok": ok, "size": SLACK * size, "k": k, "limit": lim, "gens": {}, "lines": lines if k == "map" else None,
                "total": len(puzzles.colourings(p["n"], p["edges"], len(p["labels"]))) if k == "graph" and p["n"] <= 5 else None}

    def lop_popen(self, key, i):
        if i >= len(self.pz) or key in self.pz[i]["gens"]:
            raise InvalidCase("popen")
        p = self.pz[i]
        p["gens"][key] = [self.must("opening the %s" % p["k"], p["size"], lambda: iter(p["obj"])), 0]
        self.count("opened")

    def lop_ptake(self, key, i, n):
        if i >= len(self.pz) or key not in self.pz[i]["gens"]:
            raise InvalidCase("ptake")
        p = self.pz[i]
        g = p["gens"][key]
        if g[0] is None:
            return
        if n > 12 and p["limit"] is None:
            raise InvalidCase("ptake")
        for _ in range(n):
            k, s = self.bounded("request %d to the %s" % (g[1] + 1, p["k"]), p["size"], lambda: next(g[0]))
            if k == "stop":
                if (p["limit"] is None or g[1] < p["limit"]) and g[1] != p["total"]:
                    self.fail("C21:gave_up", "the %s ended after %d solutions (limit %r)" % (p["k"], g[1], p["limit"]))
                g[0] = None
                self.ev("pend", i, key, g[1])
                return
            if k == "exc":
                self.fail("crash:lazy", "the %s raised %r" % (p["k"], s))
                raise InvalidCase("crash")
            g[1] += 1
            self.count("solutions")
            if len(p["gens"]) == 1:
                st = p["obj"].get_stats()
                if st.count > g[1]:
                    self.fail("C21:ahead", "the %s has been asked for %d solutions and found %d already" % (p["k"], g[1], st.count))
            self.ev("psol", i, key, g[1], repr(s) if p["k"] != "graph" else sorted(s.items()))
            if not p["ok"](s):
                self.fail("C21:unsound", "the %s delivered %r, which is wrong" % (p["k"], s))
            if p["limit"] is not None and g[1] > p["limit"]:
                self.fail("C21:limit", "the %s limited to %r delivered %d solutions" % (p["k"], p["limit"], g[1]))

    def lop_pclose(self, key, i):
        if i >= len(self.pz) or key not in self.pz[i]["gens"]:
            raise InvalidCase("pclose")
        p = self.pz[i]
        g = p["gens"][key]
        if g[0] is not None:
            x, g[0] = g[0], None
            self.count("fault:abandoned")
            self.must("closing the %s" % p["k"], p["size"], x.close)


    # ------------------------------------------------------------------ the command-line tool
    def lop_cli(self, p, limit, stop=False):
        """The tool, given a problem with far too many solutions and a limit; or (stop) no limit but an
        interrupt as soon as the next solution is announced."""
        if not isinstance(limit, int) or not 1 <= limit <= 12:
            raise InvalidCase("cli")
        pz = self.puzzle(dict(p, args={"policy": "ORDERED"}))
        k = p["k"]
        if pz["total"] is not None:
            raise InvalidCase("cli")
        if k == "graph":
            spec = {"k": "graph", "type": "Graph", "n": p["n"], "edges": p["edges"], "labels": [str(x) for x in p["labels"]], "nodes": "wide"}
        elif k == "map":
            spec = {"k": "map", "map": pz["lines"], "colors": list(puzzles.COLORS[:4]), "as": "str"}
        elif k == "crypt":
            spec = {"k": "cryptarithm", "e": p["e"], "zeros": True, "style": 0}
        else:
            spec = {"k": "sudoku", "grid": [[None] * 9 for _ in range(9)]}
        opts = {"limit": "inf" if stop else limit, "long": p.get("w", 1) % 2}
        if k == "crypt":
            opts["z"] = "off"
        case = {"spec": spec, "opts": opts, "give": "file"}
        fault = {"stop_text": "=== solution %d" % (limit + 1), "bufsize": 1, "unbuffered": True} if stop else None
        argv, files, stdin = cli.argv_of(case)
        sim = self.must("satisfy " + " ".join(argv[:1] + [("interrupted after solution %d" if stop else "--limit=%d") % limit]), pz["size"] * (limit + 4), cli.Sim(self, argv, files, fault=fault, stdin=stdin).run)
        self.count("tool_runs")
        if stop:
            if not sim.fired or not sim.failed:
                self.fail("C21:gave_up", "satisfy %s, to be interrupted after %d solutions, ended with %s and output %r" % (" ".join(argv), limit, sim.how(), sim.text[-200:]))
                return
            try:
                r = cli.parse(spec, sim.text + "\nFound %d partial solutions in 0.000 seconds [limit reached]\n" % limit)
                it = puzzles.It("cli", None)
                sols = [cli.read_solution(spec, part, it) for part in r.solutions]
            except puzzles.Wrong as e:
                self.fail("C21:unsound", "satisfy %s, interrupted after %d solutions: %s" % (" ".join(argv), limit, e))
                return
            self.ev("clistop", k, sols)
            self.count("solutions", len(sols))
            if len(set(sols)) != len(sols) or len(sols) != limit:
                self.fail("C21:limit", "satisfy %s printed %d solutions (%d different) before solution %d" % (" ".join(argv), len(sols), len(set(sols)), limit + 1))
            return
        if sim.outcome != ("ok", None) or sim.flush_error is not None:
            self.fail("crash:lazy", "satisfy %s ended with %s" % (" ".join(argv), sim.how()))
            return
        try:
            r = cli.parse(spec, sim.text)
            it = puzzles.It("cli", None)
            sols = [cli.read_solution(spec, part, it) for part in r.solutions]
        except puzzles.Wrong as e:
            self.fail("C21:unsound", "satisfy %s: %s" % (" ".join(argv), e))
            return
        self.ev("cli", k, r.claim, r.count, r.reason, sols)
        self.count("solutions", len(sols))
        if len(set(sols)) != len(sols) or len(sols) != limit or r.count != limit or r.claim != "partial" or r.reason != "limit":
            self.fail("C21:limit", "satisfy %s printed %d solutions (%d different) and closed with %r" % (" ".join(argv), len(sols), len(set(sols)), sim.text.strip().split("\n")[-1]))

    # ------------------------------------------------------------------ shares of a whole search
    def lop_share(self, k, n, how, policy=None):
        """A symmetric puzzle, searched to its end: whatever is decided first, an equal share of the solutions
        lies behind each choice, so the first one comes early and the others are spread over the whole work."""
        if (k, n) not in (("queens", 5), ("nonogram", 4), ("nonogram", 5)) or how not in ("tool", "object") or k == "queens" and policy not in (None, "ORDERED"):
            raise InvalidCase("share")
        spec = {"k": "queens", "n": n} if k == "queens" else {"k": "nonogram", "rows": [[1]] * n, "cols": [[1]] * n}
        total = {("queens", 5): 10, ("nonogram", 4): 24, ("nonogram", 5): 120}[k, n]
        mon = seams.MON
        marks = []

        def clock():
            return mon.budget.n

        def whole(limit):
            del marks[:]
            if how == "tool":
                case = {"spec": spec, "opts": {"limit": limit}, "give": "file"}
                argv, files, stdin = cli.argv_of(case)

                def mark(got):
                    if got.count(b"=== solution") > len(marks):
                        marks.append(clock())
                sim = cli.Sim(self, argv, files, fault={"mark": mark, "bufsize": 1, "unbuffered": True}, stdin=stdin).run()
                if sim.outcome != ("ok", None) or sim.flush_error is not None:
                    self.fail("crash:lazy", "satisfy %s ended with %s" % (" ".join(argv), sim.how()))
                    raise InvalidCase("crash")
            else:
                S, A = engine.S, puzzles.load()
                args = {"limit": self.inf(limit)}
                if policy is not None:
                    if policy == "RANDOM":
                        raise InvalidCase("share")
                    args["var_selection_policy"] = S.Policy[policy]
                obj = A.queens(n, **args) if k == "queens" else A.nonogram({"rows": [[1]] * n, "columns": [[1]] * n}, **args)
                for s in obj:
                    marks.append(clock())
            return clock()
        what = "the whole search of %s %d (%s)" % (k, n, how)
        end = self.must(what, 200000, lambda: whole("inf"))
        at = list(marks)
        self.count("solutions", len(at))
        self.count("shares")
        self.ev("share", k, n, how, len(at))
        if len(at) != total:
            self.fail("C21:gave_up", "%s found %d solutions of %d" % (what, len(at), total))
            return
        if at[0] > 0.6 * end or at[total // 2] > 0.95 * end:
            self.fail("C21:work", "%s takes %d executed lines; solution 1 came after %d, solution %d after %d" % (what, end, at[0], total // 2 + 1, at[total // 2]))
        one = self.must("%s %d limited to one solution" % (k, n), 200000, lambda: whole(1))
        if len(marks) != 1 or one > 0.6 * end:
            self.fail("C21:work", "%s takes %d executed lines; limited to 1 solution it delivered %d and took %d" % (what, end, len(marks), one))

    def lop_improve(self, n1, n2, sign, wide, conf):
        """A long chain of improvements, each forgotten by the consumer."""
        if not 50 <= n1 <= 300 or not 100 <= n2 <= 2500 or sign not in ("min", "max") or wide not in (0, 1):
            raise InvalidCase("improve")
        S = engine.S
        n = n1 + n2 + 3
        m = S.Model()
        x = m.add_int_variable(range(n) if sign == "max" else range(n, 0, -1), name="x")
        if wide:
            m.add_int_variable((0, 1), name="y")
        objective = (S.Maximize if sign == "max" else S.Minimize)(x)
        solver = S.Solver(var_selection_policy=S.Policy.ORDERED, compile_constraints=bool(conf))
        box = [iter(solver.optimize(m, objective))]
        last = None

        def some(count):
            nonlocal last
            for _ in range(count):
                k, s = self.bounded("the next improvement", 8 * (n + 10), lambda: next(box[0]))
                if k != "ok":
                    self.fail("C21:gave_up", "an optimisation with %d improvements ended with %r after %r" % (n, s, last))
                    raise InvalidCase("improve")
                v = s.solution["x"]
                if last is not None and (v <= last if sign == "max" else v >= last):
                    self.fail("C21:unsound", "an optimisation delivered %r after %r" % (v, last))
                last = v
        some(n1)
        gc.collect()
        b0 = sys.getallocatedblocks()
        some(n2)
        gc.collect()
        grown = sys.getallocatedblocks() - b0
        self.count("solutions", n1 + n2)
        self.count("streams")
        self.ev("improve", last)
        if grown > n2 // 2 + 200:
            self.fail("C21:hoard", "an optimisation holds on to memory for solutions its consumer has forgotten: %d more memory blocks after %d more solutions" % (grown, n2))


# ---------------------------------------------------------------------- generator
def open_model(rng):
    n = rng.randint(18, 60)
    sizes = [rng.choice([2, 3, 3, 4, 5, 6]) for _ in range(n)]
    vars, cons = [], []
    for i in range(n):
        s = rng.choice([0, 0, 1, -2])
        d = list(range(s, s + sizes[i]))
        dt = rng.choice(["range", "list", "tuple"])
        if dt != "range" and rng.random() < 0.3:
            rng.shuffle(d)
        v = {"n": "v%d" % i, "name": None if rng.random() < 0.3 else "n%d" % i, "dom": d, "dt": dt}
        if rng.random() < 0.05:
            v = {"n": v["n"], "name": v["name"], "bool": True}
        vars.append(v)
    names = [v["n"] for v in vars]
    free = [v for v in vars if "dom" in v]
    left = list(range(n))
    rng.shuffle(left)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        k = rng.randint(2, 6)
        pick = [left.pop() for _ in range(min(k, max(0, len(left) - 8)))]
        if len(pick) < 2:
            break
        size = len(pick) + rng.choice([0, 0, 1, 3])
        for i in pick:
            vars[i] = {"n": vars[i]["n"], "name": vars[i]["name"], "dom": list(range(size)), "dt": "list"}
        cons.append({"k": "alldiff", "v": [names[i] for i in pick], "via": rng.random() < 0.7, "free": "alldiff"})
    if rng.random() < 0.4 and len(left) > 10:
        chain = [i for i in left[:rng.randint(2, 10)] if len(ref.dom_values(vars[i])) >= 3]
        for a, b in zip(chain, chain[1:]):
            cons.append({"k": "expr", "e": ["ne", ["v", names[a]], ["v", names[b]]], "free": "ne"})
    lo = lambda v: min(ref.dom_values(next(x for x in vars if x["n"] == v)))
    for _ in range(rng.choice([0, 0, 1, 2])):
        use = rng.sample(names, rng.randint(1, min(8, n)))
        cons.append({"k": "expr", "e": ["ge", ["sum"] + [["v", v] for v in use], ["c", sum(map(lo, use)) - rng.randint(0, 2)]], "free": "true"})
    for _ in range(rng.choice([1, 1, 2, 3])):
        use = rng.sample(names, rng.randint(2, min(n, rng.choice([3, 8, 60]))))
        cons.append({"k": "probe", "v": use, "e": None, "free": "true"})
    if rng.random() < 0.5:
        cons.append({"k": "probe", "v": list(names), "e": None, "free": "true"})
    rng.shuffle(cons)
    return {"vars": vars, "params": [], "cons": cons, "sort": "open"}


def desert_model(rng):
    """First leaves of the search tree in the model's order are solutions; then a desert (or only a desert)."""
    n = rng.randint(24, 44)
    order = rng.choice(["ORDERED", "REVERSED"])
    vars = [{"n": "v%d" % i, "name": None if rng.random() < 0.3 else "n%d" % i, "dom": [0, 1] if rng.random() < 0.8 else [0, 1, 2], "dt": rng.choice(["list", "tuple", "range"])} for i in range(n)]
    names = [v["n"] for v in vars]
    seq = names if order == "ORDERED" else names[::-1]
    sizes = {v["n"]: len(ref.dom_values(v)) for v in vars}
    w, acc = {}, 1
    for v in seq[::-1]:
        w[v] = acc
        acc *= sizes[v]
    ahead = rng.choice([0, 1, 1, 2, 3, 5, 8])
    index = ["sum"] + [["mul", ["v", v], ["c", w[v]]] for v in names]
    if ahead:
        e = ["lt", index, ["c", ahead]]
    else:
        e = ["eq", index, ["c", acc - 1]]       # only the very last leaf
    c = {"k": "probe", "v": list(names), "e": e} if rng.random() < 0.75 else {"k": "expr", "e": e}
    c["free"] = "desert"
    cons = [c]
    for _ in range(rng.choice([0, 1, 2])):
        cons.append({"k": "probe", "v": list(names) if rng.random() < 0.5 else rng.sample(names, rng.randint(2, n)), "e": None, "free": "true"})
    rng.shuffle(cons)
    return {"vars": vars, "params": [], "cons": cons, "sort": "desert", "order": order, "ahead": ahead}


def gen_puzzle(rng):
    k = rng.choice(["graph", "graph", "graph", "map", "map", "sudoku", "sudoku", "crypt"])
    args = {}
    if rng.random() < 0.6:
        args["policy"] = rng.choice(gen.POLICIES)
    if rng.random() < 0.3:
        args["compile"] = rng.random() < 0.5
    if rng.random() < 0.5:
        args["limit"] = rng.choice([1, 2, 3, 5, 12, "inf", None])
    if k == "graph":
        n = rng.randint(20, 70) if rng.random() < 0.7 else rng.randint(1, 5)
        labels = rng.choice([["a", "b", "c"], ["r", "g", "b", "y"], [1, 2, 3, 4, 5]])
        deg, edges = [0] * n, []
        for _ in range(rng.choice([0, n // 2, n, 2 * n])):
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b and deg[a] < len(labels) - 1 and deg[b] < len(labels) - 1 and [a, b] not in edges and [b, a] not in edges:
                edges.append([a, b])
                deg[a] += 1
                deg[b] += 1
        return {"k": "graph", "n": n, "edges": edges, "labels": labels, "args": args}
    if k == "crypt":
        ls = rng.sample("ABCDEFGHIJKLMNOPQRSTUVWXYZ", rng.choice([8, 9, 10, 10]))
        n = rng.choice([1, 2, 3, len(ls) // 2])
        n = n if len(ls) % n == 0 else 1
        ws = [["w", "".join(ls[i:i + n])] for i in range(0, len(ls), n)]
        half = rng.randint(1, max(1, len(ws) - 1))
        add = lambda x: x[0] if len(x) == 1 else ["+", add(x[:-1]), x[-1]]
        cmp = "!="
        if n == 1 and rng.random() < 0.5:
            cmp, half = rng.choice([("<", half % 3 + 1), (">", len(ws) - 1 - half % 3)])
        return {"k": "crypt", "e": [cmp, add(ws[:half]), add(ws[half:])], "args": args}
    if k == "map":
        return {"k": "map", "rows": rng.randint(2, 4), "cols": rng.randint(4, 8), "w": rng.randint(1, 3), "args": args}
    args["policy"] = rng.choice([p for p in gen.POLICIES if p != "RANDOM"])
    return {"k": "sudoku", "blank": 81, "args": args}


def gen_case(rng):
    r = rng.random()
    if r < 0.006:
        k, n = rng.choice([("queens", 5), ("nonogram", 4), ("nonogram", 5)])
        return {"models": [], "solvers": [], "puzzles": [], "eval_cost": 0.0,
                "ops": [["share", k, n, rng.choice(["tool", "object"]), rng.choice([None, "ORDERED"] if k == "queens" else [None] + [p for p in gen.POLICIES if p != "RANDOM"])]]}
    if r < 0.01:
        return {"models": [], "solvers": [], "puzzles": [], "eval_cost": 0.0,
                "ops": [["improve", rng.choice([50, 100]), rng.choice([150, 400]), rng.choice(["min", "max"]), rng.randint(0, 1), rng.randint(0, 1)]]}
    if rng.random() < 0.04:
        p = gen_puzzle(rng)
        while p["k"] == "graph" and p["n"] < 20:
            p = gen_puzzle(rng)
        p["args"] = {}
        return {"models": [], "solvers": [], "puzzles": [], "ops": [["cli", p, rng.choice([1, 2, 3, 5, 11]), rng.random() < 0.5]], "eval_cost": 0.0}
    if rng.random() < 0.12:
        ps = [gen_puzzle(rng) for _ in range(rng.choice([1, 1, 2]))]
        ops = []
        keys = []
        for i, p in enumerate(ps):
            for j in range(rng.choice([1, 1, 2])):
                ops.append(["popen", "k%d" % j, i])
                keys.append(("k%d" % j, i))
        for _ in range(rng.randint(1, 6)):
            k, i = rng.choice(keys)
            r = rng.random()
            ops.append(["ptake", k, i, rng.randint(1, 5)] if r < 0.8 else ["pclose", k, i])
        return {"models": [], "solvers": [], "puzzles": ps, "ops": ops, "eval_cost": 0.0}
    models = [open_model(rng) if rng.random() < 0.5 else desert_model(rng) for _ in range(rng.choice([1, 1, 2]))]
    cost = rng.choice([0.0, Q, Q, 4 * Q])
    tmo = lambda: None if not cost else rng.choice([None, cost * (rng.randint(5, 40) + 0.5), cost * (rng.randint(5, 400) + 0.5), cost * (rng.randint(5, 400) + 0.5), 1e6, 0, "inf"])
    solvers = [gen.solver(rng, limit=None if rng.random() < 0.8 else rng.choice([1, 2, "inf"])) for _ in range(rng.choice([1, 1, 2]))]
    ops, live = [], []
    case = {"models": models, "solvers": solvers, "ops": ops, "eval_cost": cost}
    for j in range(rng.randint(1, 4)):
        key = "i%d" % j
        mid, sid = rng.randrange(len(models)), rng.randrange(len(solvers))
        m = models[mid]
        desert = m["sort"] == "desert"
        a = {"seed": rng.randrange(1000)}
        kind = rng.choice(["solve", "solve", "solve", "iter", "opt", "best"])
        pol = solvers[sid]["policy"]
        if kind != "iter":
            if desert:
                pol = m["order"] if rng.random() < 0.8 else rng.choice(gen.POLICIES)
                a["policy"] = pol
            elif rng.random() < 0.5:
                pol = a["policy"] = rng.choice(gen.POLICIES)
        lim = solvers[sid]["limit"]
        to = None
        full = desert and (kind not in ("opt", "best") or m["ahead"] == 0 and pol == m["order"]) and any(c["k"] == "probe" and c["free"] == "desert" for c in m["cons"])
        cheap = (m["ahead"] if pol == m["order"] else 0) if desert else 10 ** 9
        if kind in ("opt", "best"):
            last = m["vars"][-1 if pol == "ORDERED" else 0]
            if rng.random() < 0.6 and not desert:
                a["obj"] = [["max", ["v", last["n"]]]]
                d = ref.dom_values(last)
                cheap = 1
                if pol in ("ORDERED", "REVERSED") and d == sorted(d) and not any(last["n"] in ref.con_vars(c) and c["free"] != "true" for c in m["cons"]):
                    cheap = len(d)
            else:
                cheap = min(cheap, 1)
                use = rng.sample([v["n"] for v in m["vars"]], rng.randint(1, len(m["vars"])))
                a["obj"] = [[rng.choice(["min", "max"]), ["sum"] + [["v", v] for v in use]] for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.1 and kind not in ("iter",):
            a["extra"] = [{"k": "probe", "v": rng.sample([v["n"] for v in m["vars"]], 2), "e": None}]
        if kind != "iter" and rng.random() < 0.5 and cheap:
            lim = a["limit"] = rng.randint(1, min(cheap, 6))
        if kind != "iter" and full and cost and (rng.random() < 0.55 or cheap == 0):
            to = a["timeout"] = tmo()
        lim = None if lim == "inf" else lim
        ends = lim is not None and lim <= cheap
        timed = isinstance(to, (int, float)) and full and cost > 0 and to < 1e5
        if kind == "best" and not (ends or timed):
            lim = a["limit"] = 1
            if cheap < 1:
                continue
        ops.append(["open", key, kind, sid, mid, a])
        if kind == "best":
            ops.append(["best", key])
            continue
        live.append((key, cheap, ends, timed, full, m))
    for i in range(rng.randint(1, 10)):
        if not live:
            break
        key, cheap, ends, timed, full, m = live[rng.randrange(len(live))]
        r = rng.random()
        if (full or timed) and rng.random() < 0.35:
            r = 0.8 + 0.2 * r
        if r < 0.55:
            ops.append(["take", key, rng.randint(1, 4)])
        elif r < 0.62:
            ops.append(["dwell", Q * rng.randint(1, 10 ** 4)])
        elif r < 0.67:
            ops.append(["wall", rng.choice([-1, 1]) * rng.randint(1, 10 ** 5)])
        elif r < 0.72:
            ops.append(["stats", rng.randrange(len(solvers))])
        elif r < 0.80:
            ops.append([rng.choice(["close", "drop"]), key])
        elif r < 0.90 and full:
            ops.append(["kbd", key, rng.randint(1, 300)])
        elif ends or timed:
            ops.append(["drain", key])
    # take only what is cheap: requests beyond it are cut off the plan
    room = {key: (10 ** 9 if ends or timed else cheap) for key, cheap, ends, timed, full, m in live}
    kept = []
    for op in ops:
        if op[0] == "take":
            n = min(op[2], room[op[1]])
            room[op[1]] -= n
            if n:
                kept.append(["take", op[1], n])
        elif op[0] == "kbd":
            kept.append(op)
            room[op[1]] = max(0, room[op[1]] - 1)
        else:
            kept.append(op)
    case["ops"] = kept
    if rng.random() < 0.04 and models[0]["sort"] == "open":
        solvers.append(gen.solver(rng, limit=None))
        kept.append(["open", "st", "solve", len(solvers) - 1, 0, {"seed": 1}])
        kept.append(["stream", "st", rng.randint(50, 150), rng.choice([400, 800])])
    if cost and rng.random() < 0.3:
        case["stalls"] = {str(rng.randint(1, 400)): cost * rng.randint(1, 100)}
    return case


class C21(Prop):
    id = "C21"
    accept = ("C21", "cra", "C09")

    def gen(self, rng, tier):
        return gen_case(rng)

    def run(self, case):
        w = LazyWorld(case)
        try:
            w.run()
        finally:
            seams.MON.stop()
        w.accept = self.accepts()
        r = w.result()
        r["nontrivial"] = w.counters.get("solutions", 0) > 0 and len(w.log) > 2
        return r
