"""The simulated world in which sessions of searches run.

A case is a JSON object; execute(case) is a pure function of the case and the code under test
(and of PYTHONHASHSEED, which the case records).  The world is single-threaded discrete events:
each op is one event; consumers, editors, the administrator stepping the wall clock and the fault
injector are all just ops chosen by the seeded generator.
"""
import copy
import random

from . import ref, seams
from .ref import InvalidCase
from .seams import derive, digest

S = None            # the satisfy package and friends, set by load()


class Api:
    pass


def load():
    global S
    if S is not None:
        return S
    seams.import_satisfy()
    import satisfy
    import satisfy.solver
    import satisfy.constraint
    import satisfy.expression
    import satisfy.utils
    a = Api()
    a.Model = satisfy.Model
    a.Solver = satisfy.Solver
    a.ModelSolver = satisfy.ModelSolver
    a.Policy = satisfy.VarSelectionPolicy
    a.Minimize = satisfy.Minimize
    a.Maximize = satisfy.Maximize
    a.Constraint = satisfy.constraint.Constraint
    a.ExpressionConstraint = satisfy.constraint.ExpressionConstraint
    a.AllDifferentConstraint = satisfy.constraint.AllDifferentConstraint
    a.ConstConstraint = satisfy.constraint.ConstConstraint
    a.Const = satisfy.expression.Const
    a.Expression = satisfy.expression.Expression
    a.Variable = satisfy.expression.Variable
    a.Parameter = satisfy.expression.Parameter
    a.INFINITY = satisfy.utils.INFINITY

    class Probe(a.Constraint):
        """A user-defined constraint through which the simulator charges time, stalls, fails or preempts."""

        def __init__(self, world, names, fn):
            super().__init__(names)
            self._world = world
            self._fn = fn

        def evaluate(self, substitution):
            self._world.on_eval()
            return self._fn(substitution)
    class Failing(a.Constraint):
        """A user-defined constraint that cannot even be evaluated."""

        def __init__(self, names, error):
            super().__init__(names)
            self._error = error

        def evaluate(self, substitution):
            raise self._error
    a.Probe = Probe
    a.Failing = Failing
    S = a
    return a


class Violation(Exception):
    def __init__(self, tag, msg):
        super().__init__("%s: %s" % (tag, msg))
        self.tag = tag
        self.msg = msg


class Hang(BaseException):
    pass


class RealModel:
    """A model under test together with its reference description."""

    def __init__(self, world, spec):
        self.world = world
        self.vars = []              # alias specs accepted so far
        self.cons = []
        self.params = {}
        self.solvable = True
        self.var_obj = {}
        self.param_obj = {}
        self.real_name = {}         # alias -> real variable name
        self.m = S.Model()
        self.memo = {} if spec.get("memo") else None
        self.nprobes = 0
        self.domains = {}           # the very objects given to the model
        self.added = []             # what was added, in order (None: unknown)
        for v in spec["vars"]:
            self.add_var(v)
        for p in spec.get("params", ()):
            self.add_param(p)
        for c in spec.get("cons", ()):
            self.add_con(c)
        self.edited()

    def state(self):
        vs = [(n, id(v.variable), None if v.domain is None else list(v.domain)) for n, v in self.m.variables().items()]
        return vs, [id(c) for c in self.m.constraints()], self.m.solvable()

    def edited(self):
        """The model is now as the last edit left it."""
        self.known = self.state()

    def unchanged(self):
        """Nothing but edits changes a model: neither searches nor optimisations, however they end."""
        now = self.state()
        if now != self.known:
            self.world.fail("C11:changed", "the model changed without an edit: %r -> %r" % (self.known, now))
            self.known = now

    def add_var(self, v):
        if v["n"] in self.var_obj:
            raise InvalidCase("dup alias")
        if v.get("bool"):
            o = self.m.add_bool_variable(name=v.get("name"))
        else:
            dom = self.domains[v["n"]] = ref.make_domain(v)
            o = self.m.add_int_variable(dom, name=v.get("name"))
        self.note_var(v, o)

    def note_var(self, v, o):
        self.var_obj[v["n"]] = o
        self.real_name[v["n"]] = o.name
        self.vars.append(v)
        self.added.append(("var", v.get("name")))

    def add_param(self, p):
        o = self.m.add_parameter(ref.val(p["value"]), name=p.get("name"))
        self.note_param(p, o)

    def note_param(self, p, o):
        self.param_obj[p["n"]] = o
        self.params[p["n"]] = p["value"]
        self.added.append(("param", p.get("name")))

    def reports(self):
        """The model reports what was added to it."""
        try:
            self._reports(self.m)
        except (LookupError, AttributeError, TypeError, ValueError) as ex:
            self.world.fail("C11:reports", "the model does not report what was added to it: %r" % (ex,))

    def _reports(self, m):
        for v in self.vars:
            o = self.var_obj[v["n"]]
            want = list(ref.make_domain(v)) if not v.get("bool") else [0, 1]
            for got in (m.get_var_domain(o), m.get_var_domain(o.name), m.variables()[o.name].domain):
                if list(got) != want:
                    self.world.fail("C11:reports", "the model says the domain of %s is %r, not %r" % (o.name, got, want))
                    return
            if m.get_variable(o.name) is not o:
                self.world.fail("C11:reports", "the model does not know its variable %s" % o.name)
                return
        for o in self.param_obj.values():
            if m.get_variable(o.name) is not o:
                self.world.fail("C11:reports", "the model does not know its parameter %s" % o.name)
                return

    def names(self):
        """Names given to what was added without one are those given without the rejected edits in between."""
        m = S.Model()
        for kind, name in self.added:
            if kind == "var":
                m.add_int_variable((0,), name=name)
            else:
                m.add_parameter(0, name=name)
        if list(m.variables()) != list(self.m.variables()):
            self.world.fail("C11:names", "the model names its variables %r; without rejected edits it names them %r" % (list(self.m.variables()), list(m.variables())))

    def make_con(self, c):
        """The object to pass to add_constraint."""
        try:
            if c["k"] == "expr":
                e = ref.build(c["e"], self.var_obj, self.param_obj, S.Const, self.memo)
                return e if isinstance(e, (S.Expression, bool)) else bool(e)
            if c["k"] == "alldiff":
                return S.AllDifferentConstraint([self.var_obj[v].name for v in c["v"]])
            if c["k"] == "const":
                return bool(c["b"])
            if c["k"] == "probe":
                names = [self.var_obj[v].name for v in c["v"]]
                alias = {self.var_obj[v].name: v for v in c["v"]}
                e = c.get("e")
                params = self.params
                if e is None:
                    fn = lambda s: True
                else:
                    fn = lambda s: ref.ev(e, {alias[n]: s[n] for n in names}, params)
                return S.Probe(self.world, names, fn)
        except (KeyError, ZeroDivisionError) as ex:
            raise InvalidCase("constraint %r: %r" % (c, ex))
        raise InvalidCase("constraint kind")

    def add_con(self, c):
        o = self.make_con(c)
        if c["k"] == "alldiff" and c.get("via", 1):
            self.m.add_all_different_constraint([self.var_obj[v] for v in c["v"]])
        else:
            self.m.add_constraint(o)
        self.note_con(c)

    def note_con(self, c):
        self.cons.append(c)
        if c["k"] == "probe":
            self.nprobes += 1

    def spec(self):
        """The description of the model as it is now."""
        return {"vars": self.vars, "params": [{"n": n, "name": o.name if not o.name.startswith("_") else None, "value": self.params[n]} for n, o in self.param_obj.items()], "cons": self.cons, "memo": self.memo is not None}

    def problem(self, extra=()):
        return ref.Problem(self.vars, list(self.cons) + list(extra), self.params, self.solvable)

    def canon(self, sol):
        """Solution dict -> value tuple in alias order; None when keys are not exactly the variables."""
        if not isinstance(sol, dict):
            return None
        try:
            vals = tuple(sol[self.real_name[v["n"]]] for v in self.vars)
        except KeyError:
            return None
        return vals if len(sol) == len(self.vars) else None


class It:
    """One open search, as its consumer and the oracle see it."""

    def __init__(self, key, kind, sid, mid, args):
        self.key, self.kind, self.sid, self.mid, self.args = key, kind, sid, mid, args
        self.gen = None
        self.started = False
        self.done = None            # None, "end", "error", "closed"
        self.delivered = []         # value tuples
        self.objects = []           # (object, pristine copy) of delivered solutions
        self.mutated = set()
        self.problem = None
        self.expected = None        # lexicographic list or None
        self.search = 0.0           # simulated time charged to this search
        self.over_evals = 0
        self.over_sols = 0
        self.evals = 0
        self.objvals = []
        self.rmodel = None
        self.snapshot_vars = None
        self.timeout = None
        self.limit = None
        self.overlapped = False
        self.running = 0            # it is evaluating a constraint that advances another search


class World:
    """Executes one session case."""
    DRAIN_CAP = 20000

    def __init__(self, case, accept=None):
        self.case = case
        self.accept = accept        # None: every tag is a violation
        self.log = []
        self.counters = {}
        self.clock = seams.set_clock(seams.SimClock(**case.get("clock", {})))
        seams.EVAL.calls = 0
        seams.EVAL.fired = 0
        seams.EVAL.on_raise = self.note_raised
        f = case.get("faults", {})
        seams.EVAL.fail = {int(k): seams.EXC[v] for k, v in f.get("compile", {}).items()}
        self.eval_cost = f.get("eval_cost", 0.0)
        self.stalls = {int(k): v for k, v in f.get("stalls", {}).items()}
        self.eval_exc = {int(k): v for k, v in f.get("eval_exc", {}).items()}
        self.eval_wall = {int(k): v for k, v in f.get("eval_wall", {}).items()}
        self.inject = {int(k): v for k, v in f.get("inject", {}).items()}    # op index -> [line, exc]
        self.nested = {int(k): v for k, v in f.get("nested", {}).items()}    # evaluation -> [search, steps] taken inside it
        self.depth = 0
        if any(not isinstance(v, list) or len(v) != 2 for v in self.nested.values()):
            raise InvalidCase("nested")
        self.nested_violation = None
        self.nevals = 0
        self.cur = None             # It whose next() is running
        self.injector = seams.Injector()
        self.lines = {}             # op index -> executed lines (dry run)
        self.count_lines = False
        self.raised = []            # exception objects the simulator raised in this op
        self.models = []
        self.solvers = []
        self.its = {}
        self.last_on_solver = {}    # sid -> It most recently started
        self.open_on_solver = {}
        self.sim_tags = set()
        self.switches = 0
        self.prev_actor = None

    # ------------------------------------------------------------ bookkeeping
    def note_raised(self, e):
        self.raised.append(e)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def fail(self, tag, msg):
        if self.accept is None or tag[:3] in self.accept or tag in self.accept:
            raise Violation(tag, msg)
        self.count("other_tag:" + tag)

    def ev(self, *x):
        self.log.append(x)

    def on_eval(self):
        """Called from inside the search each time a simulator constraint is evaluated."""
        self.nevals += 1
        k = self.nevals
        it = self.cur
        if it is not None:
            it.evals += 1
            if it.timeout is not None and it.search > it.timeout:
                it.over_evals += 1
        cost = self.eval_cost
        st = self.stalls.get(k)
        if st:
            cost += st
            self.count("fault:stall")
        if cost:
            self.clock.advance(cost)
            if it is not None:
                it.search += cost
        w = self.eval_wall.get(k)
        if w is not None:
            self.clock.step_wall(w)
        x = self.nested.get(k)
        if x is not None:
            self.reenter(*x)
        x = self.eval_exc.get(k)
        if x is not None:
            self.count("fault:eval_raises_" + x)
            e = seams.EXC[x]("injected in evaluation %d" % k)
            self.raised.append(e)
            raise e

    def reenter(self, key, n):
        """A constraint that, while one search evaluates it, advances another search."""
        outer, it = self.cur, self.its.get(key)
        if outer is None or it is None or self.its.get(outer.key) is not outer or it is outer or it.running or it.done is not None or self.depth >= 2:
            return
        t0, raised, state = self.clock.t, self.raised, random.getstate()
        self.depth += 1
        outer.running += 1
        self.cur = None
        try:
            for _ in range(n):
                self.count("fault:nested_step")
                if not self.step(-1, it):
                    break
        except (Violation, Hang) as e:
            self.nested_violation = e
            raise
        finally:
            outer.running -= 1
            self.depth -= 1
            self.cur, self.raised = outer, raised
            random.setstate(state)
            outer.search += self.clock.t - t0

    # ------------------------------------------------------------ calling the code under test
    def call(self, op_index, fn):
        """Run fn(); returns (kind, value): 'ok', 'stop' or 'exc'."""
        self.raised = []
        inj = self.inject.get(op_index)
        mon = seams.MON
        if inj is not None:
            self.injector.arm(inj[0], seams.EXC[inj[1]])
            mon.start(self.injector)
        elif self.count_lines:
            self.injector.arm(None, None)
            mon.start(self.injector)
        try:
            r = ("ok", fn())
        except StopIteration as e:
            r = ("stop", e)
        except (Violation, InvalidCase, Hang, seams.StepBudget):
            raise
        except BaseException as e:
            r = ("exc", e)
        finally:
            mon.pause()
        if self.nested_violation is not None:
            raise self.nested_violation
        if inj is not None and self.injector.fired is not None:
            self.raised.append(self.injector.fired)
            self.count("fault:line_" + inj[1])
            self.ev("injected", self.injector.where)
        if self.count_lines:
            self.lines[op_index] = self.lines.get(op_index, 0) + self.injector.n
        return r

    def judge_exc(self, tag, e, what, natural=()):
        """An exception came out; was it one the simulator (or the model) legitimately caused?"""
        if self.raised:
            hard = [r for r in self.raised if isinstance(r, (KeyboardInterrupt, SystemExit))]
            if hard and not any(e is r for r in hard) and not self.superseded(e, hard):
                self.fail("C09:replaced", "%s raised %r instead of the injected %r" % (what, e, hard[-1]))
                return
            x, seen = e, 0
            while x is not None and seen < 20:
                if any(x is r for r in self.raised):
                    return
                x = x.__cause__ or x.__context__
                seen += 1
            if isinstance(e, natural):
                return          # the injected one was absorbed harmlessly (compile fallback)
            self.fail("C09:replaced", "%s raised %r instead of the injected %r" % (what, e, self.raised[-1]))
            return
        if isinstance(e, natural):
            return
        self.fail(tag, "%s raised %s: %s" % (what, type(e).__name__, e))

    def superseded(self, e, hard):
        """A second injected fault struck while the first was on its way to the caller."""
        if not any(e is r for r in self.raised):
            return False
        seen = 0
        while e is not None and seen < 20:
            if any(e is r for r in hard):
                return True
            e = e.__cause__ or e.__context__
            seen += 1
        return False

    def judge_absorbed(self, what):
        if self.raised:
            self.count("absorbed")
            for r in self.raised:
                if isinstance(r, (KeyboardInterrupt, SystemExit)):
                    self.fail("C09:swallowed", "%s swallowed the injected %r" % (what, r))

    # ------------------------------------------------------------ run
    def run(self):
        case = self.case
        for spec in case["models"]:
            try:
                self.models.append(RealModel(self, spec))
            except (InvalidCase, Hang, seams.StepBudget):
                raise
            except Exception as e:
                self.fail("crash:build", "building the model raised %s: %s" % (type(e).__name__, e))
                raise InvalidCase("unbuildable")
        for s in case["solvers"]:
            self.solvers.append(self.make_solver(s))
        self.edits = set()              # models the current op edits
        for i, op in enumerate(case["ops"]):
            h = getattr(self, "op_" + op[0], None)
            if h is None:
                raise InvalidCase("op %r" % (op,))
            h(i, *op[1:])
            while self.edits:
                self.models[self.edits.pop()].edited()
        self.finish()
        return self

    def make_solver(self, s):
        return S.Solver(var_selection_policy=S.Policy[s["policy"]], timeout=self.inf(s.get("timeout")),
                        limit=self.inf(s.get("limit")), compile_constraints=s.get("compile", True))

    @staticmethod
    def inf(x):
        return S.INFINITY if x == "inf" else x

    def actor(self, a):
        if self.prev_actor is not None and a != self.prev_actor:
            self.switches += 1
        self.prev_actor = a

    # ------------------------------------------------------------ searches
    def run_args(self, it):
        """Keyword arguments for one run, and the It's effective settings."""
        a = it.args
        s = self.case["solvers"][it.sid]
        cur = self.solver_cfg(it.sid)
        kw = {}
        it.timeout = cur["timeout"]
        it.limit = cur["limit"]
        it.policy = s["policy"]
        if "policy" in cur:
            it.policy = cur["policy"]
        if "timeout" in a:
            kw["timeout"] = self.inf(a["timeout"])
            it.timeout = a["timeout"]
        if "limit" in a:
            kw["limit"] = self.inf(a["limit"])
            it.limit = a["limit"]
        if "policy" in a:
            kw["var_selection_policy"] = S.Policy[a["policy"]]
            it.policy = a["policy"]
        if it.timeout == "inf":
            it.timeout = None
        if it.limit == "inf":
            it.limit = None
        return kw

    def solver_cfg(self, sid):
        if not hasattr(self, "_cfg"):
            self._cfg = {}
        if sid not in self._cfg:
            s = self.case["solvers"][sid]
            self._cfg[sid] = {"timeout": s.get("timeout"), "limit": s.get("limit"), "policy": s["policy"], "compile": s.get("compile", True)}
        return self._cfg[sid]

    def op_open(self, i, key, kind, sid, mid, args):
        if key in self.its or sid >= len(self.solvers) or mid >= len(self.models):
            raise InvalidCase("open")
        self.its[key] = It(key, kind, sid, mid, args)

    # consumers may build an objective, constraint or ModelSolver once and use it for many runs
    def shared(self, key, make):
        if not self.case.get("share"):
            return make()
        if not hasattr(self, "_shared"):
            self._shared = {}
        key = repr(key)
        if key not in self._shared:
            self._shared[key] = make()
        return self._shared[key]

    def home(self, rm, e):
        """Objects over the same variable names and no parameters serve every model that has those names."""
        if ref.params_of(e):
            return self.models.index(rm)
        return sorted((v, rm.real_name.get(v)) for v in ref.vars_of(e))

    def objectives(self, rm, specs):
        if any(v not in rm.var_obj for _, e in specs for v in ref.vars_of(e)):
            raise InvalidCase("objective")

        def make(sense, e):
            x = S.Expression.coerce(ref.build(e, rm.var_obj, rm.param_obj, S.Const, rm.memo))
            return S.Minimize(x) if sense == "min" else S.Maximize(x)
        return [self.shared(("obj", sense, e, self.home(rm, e)), lambda: make(sense, e)) for sense, e in specs]

    def extras(self, rm, specs):
        def make(c):
            o = rm.make_con(c)
            return S.ExpressionConstraint(o) if isinstance(o, S.Expression) else S.ConstConstraint(o) if isinstance(o, bool) else o
        return [self.shared(("con", c, self.models.index(rm)), lambda: make(c)) for c in specs]

    @staticmethod
    def form(it, xs):
        """The kinds of sequence a caller may hand over."""
        f = it.args.get("form")
        return iter(xs) if f == "iter" else tuple(xs) if f == "tuple" else (x for x in xs) if f == "gen" else xs

    def start(self, i, it):
        """Bind the generator lazily, at the first request, as iteration in a consumer does."""
        rm = self.models[it.mid]
        solver = self.solvers[it.sid]
        kw = self.run_args(it)
        extra_spec = it.args.get("extra", [])
        extra = self.extras(rm, extra_spec)
        if extra:
            kw["additional_constraints"] = self.form(it, extra)
        it.rmodel = rm
        it.nvars = len(rm.vars)
        it.snapshot_vars = list(rm.vars)
        it.problem = rm.problem(extra_spec)
        it.nprobes = rm.nprobes + sum(1 for c in extra_spec if c["k"] == "probe")
        it.params = dict(rm.params)
        if it.kind == "solve":
            it.make = lambda: iter(solver.solve(rm.m, **kw))
        elif it.kind == "iter":
            if kw:
                raise InvalidCase("iter takes no arguments")
            it.make = lambda: iter(self.shared(("ms", it.sid, it.mid), lambda: S.ModelSolver(model=rm.m, solver=solver)))
        elif it.kind == "opt":
            objs = self.objectives(rm, it.args["obj"])
            ob = objs[0] if len(objs) == 1 and not it.args.get("aslist") else self.form(it, objs)
            it.make = lambda: iter(solver.optimize(rm.m, ob, **kw))
        else:
            raise InvalidCase("kind")
        seed = it.args.get("seed")
        if seed is not None:
            random.seed(seed)
        it.started = True
        others = [o for o in self.its.values() if o is not it and o.started and o.sid == it.sid and o.done is None]
        if others:
            for o in others:
                o.overlapped = True
            it.overlapped = True
            self.count("overlap_same_solver")
        if any(o is not it and o.started and o.done is None for o in self.its.values()):
            self.count("overlap")
        self.last_on_solver[it.sid] = it

    def canon(self, it, sol):
        if not isinstance(sol, dict):
            return None
        try:
            vals = tuple(sol[it.rmodel.real_name[v["n"]]] for v in it.snapshot_vars)
        except KeyError:
            return None
        return vals if len(sol) == len(it.snapshot_vars) else None

    def step(self, i, it):
        """One next() on a search.  Returns True when a solution was delivered."""
        if it.done == "closed" or it.started and it.gen is None and it.make is None or self.models[it.mid] is None:
            return False
        self.actor(it.key)
        if not it.started:
            self.start(i, it)
        before_search = it.search
        t0 = self.clock.t
        prev, self.cur = self.cur, it

        def fn():
            if it.gen is None:
                it.gen = it.make()
            return next(it.gen)
        expired_before = it.timeout is not None and it.search > it.timeout
        try:
            kind, val = self.call(i, fn)
        finally:
            self.cur = prev
        it.calltime = getattr(it, "calltime", 0.0) + (self.clock.t - t0)
        if it.done is not None:
            if kind != "stop":
                self.fail("C01:after_end", "search %s delivered or raised after its end: %r" % (it.key, val))
            return False
        if kind == "exc":
            self.ev(it.key, "exc", type(val).__name__)
            it.done = "error"
            it.exc = val
            natural = (ZeroDivisionError, OverflowError) if any(c["k"] == "expr" for c in it.problem.cons) else ()
            if natural and not self.raised and isinstance(val, natural) and not self.may_err(it):
                natural = ()
            self.judge_exc("crash:search", val, "search %s" % it.key, natural)
            self.count("ended_error")
            self.check_stats(it, final=True)
            return False
        if kind == "stop":
            it.done = "end"
            self.judge_absorbed("search %s" % it.key)
            self.ev(it.key, "end", len(it.delivered))
            self.count("ended")
            self.judge_end(it)
            return False
        self.judge_absorbed("search %s" % it.key)
        sol = val
        if it.kind == "opt":
            sol = getattr(val, "solution", None)
        vals = self.canon(it, sol)
        self.ev(it.key, "sol", vals)
        self.count("solutions")
        if vals is None:
            self.fail("C01:shape", "search %s delivered %r, which is not an assignment to exactly the variables %s" % (
                it.key, sol, [it.rmodel.real_name[v["n"]] for v in it.snapshot_vars]))
            it.delivered.append(vals)
            return True
        if self.wrong(it, vals):
            self.fail(self.wrong_tag(it), "search %s delivered %r, which does not satisfy the model" % (it.key, sol))
        if vals in it.delivered and it.kind != "opt":
            self.fail("C01:repeat", "search %s delivered %r twice" % (it.key, sol))
        if it.kind == "opt":
            self.judge_improves(it, vals)
        it.delivered.append(vals)
        it.objects.append([sol, copy.deepcopy(sol)])
        if it.limit is not None and len(it.delivered) > it.limit:
            self.fail("C03:over", "search %s limited to %r delivered %d solutions" % (it.key, it.limit, len(it.delivered)))
        if it.timeout is not None and it.search > it.timeout:
            it.over_sols += 1
            if expired_before:
                self.fail("C04:late", "search %s delivered a solution although its search time %r had passed its timeout %r before this step began" % (
                    it.key, before_search, it.timeout))
            if it.over_sols > 1:
                self.fail("C04:late", "search %s delivered %d solutions after its timeout %r had passed" % (it.key, it.over_sols, it.timeout))
        self.judge_overrun(it)
        self.check_stats(it)
        return True

    def wrong(self, it, vals):
        p = it.problem
        for d, v in zip(p.doms, vals):
            if v not in d:
                return True
        return not p.satisfies(vals)

    def wrong_tag(self, it):
        return "C01:unsound" if it.kind != "opt" else "C07:infeasible"

    def may_err(self, it):
        """Does some constraint of the problem fail on some values at all?"""
        import itertools
        p = it.problem
        for c in p.cons:
            if c["k"] != "expr":
                continue
            vs = ref.con_vars(c)
            doms = [p.doms[p.names.index(v)] for v in vs]
            for vals in itertools.product(*doms):
                if ref.con_holds(c, dict(zip(vs, vals)), p.params) is ref.ERR:
                    return True
        return False

    def judge_overrun(self, it):
        # the rest of the step in which time ran out (candidate evaluations and a last look at additional constraints)
        bound = it.problem.step_bound(it.nprobes) + it.nprobes
        if it.over_evals > bound:
            self.fail("C04:overrun", "search %s went on for %d evaluations after its timeout %r had passed (one step takes at most %d)" % (
                it.key, it.over_evals, it.timeout, it.problem.step_bound(it.nprobes)))

    def reason(self, it):
        """The interrupt reason reported for this run, or '?' when another run has since used the solver."""
        if it.overlapped or self.last_on_solver.get(it.sid) is not it:
            return "?"
        k, st = self.quiet(lambda: self.solvers[it.sid].get_stats())
        if k != "ok":
            self.fail("crash:stats", "get_stats raised %r" % (st,))
            return "?"
        return st.interrupt

    def quiet(self, fn):
        try:
            return "ok", fn()
        except (Violation, InvalidCase, Hang, seams.StepBudget):
            raise
        except BaseException as e:
            return "exc", e

    def judge_end(self, it):
        n = len(it.delivered)
        r = self.reason(it)
        self.judge_overrun(it)
        known = r != "?"
        cut = None
        if known:
            if r not in (None, "limit", "timeout"):
                self.fail("C06:reason", "search %s ended with the unknown interrupt reason %r" % (it.key, r))
            if r == "timeout" and (it.timeout is None or not it.search > it.timeout) and not self.clock.read_cost:
                self.fail("C04:false_timeout", "search %s reported a timeout (%r) after only %r of search time" % (it.key, it.timeout, it.search))
            if r == "limit" and (it.limit is None or n < it.limit):
                self.fail("C03:false_limit", "search %s reported its limit %r after %d solutions" % (it.key, it.limit, n))
            if r != "limit" and it.limit is not None and n >= it.limit:
                self.fail("C03:unreported", "search %s delivered its limit of %r solutions but reports %r" % (it.key, it.limit, r))
            if r is None and it.timeout is not None and it.search > it.timeout and not it.over_sols and not self.case.get("loose"):
                self.fail("C04:unreported", "search %s used %r of search time, more than its timeout %r, and reports no interruption" % (it.key, it.search, it.timeout))
            cut = r
        else:
            if it.limit is not None and n >= it.limit:
                cut = "limit"
            elif it.timeout is not None and it.search > it.timeout:
                cut = "timeout"
        it.reason_seen = cut
        self.count("cut_%s" % cut)
        if cut is None and not (self.clock.read_cost and it.timeout is not None and not known):
            self.judge_complete(it)
        self.check_stats(it, final=True)

    def judge_complete(self, it):
        if self.unmet_failure(it, it.objvals[-1] if it.objvals else None):
            self.fail("C09:hidden", "search %s ended normally although a constraint fails on an assignment no other constraint excludes" % it.key)
            return
        if it.kind == "opt":
            self.judge_optimum(it)
            return
        exp = it.problem.solset
        got = set(it.delivered)
        if got != exp:
            miss = sorted(exp - got)[:3]
            tag = "C01:incomplete"
            self.fail(tag, "search %s ended with %d of %d solutions; missing e.g. %r (variables %r)" % (
                it.key, len(got), len(exp), miss, it.problem.names))

    def unmet_failure(self, it, best):
        """Is there an assignment a complete search cannot have passed by without a constraint failing on it?"""
        if not it.problem.must_fail:
            return False
        if it.kind != "opt" or best is None:
            return True
        for vals in it.problem.errs:        # bounds only tighten: one better than the final best was never excluded
            try:
                if self.better(it.args["obj"], self.objective_values(it, vals), best):
                    return True
            except (ZeroDivisionError, OverflowError):
                pass
        return False

    # ------------------------------------------------------------ optimisation oracles
    def objective_values(self, it, vals):
        env = dict(zip(it.problem.names, vals))
        return [ref.ev(e, env, it.params) for _, e in it.args["obj"]]

    @staticmethod
    def better(obj, a, b):
        """a strictly better than b in every objective"""
        return all((x < y) if s == "min" else (x > y) for (s, _), x, y in zip(obj, a, b))

    def judge_improves(self, it, vals):
        v = self.objective_values(it, vals)
        if it.objvals and not self.better(it.args["obj"], v, it.objvals[-1]):
            self.fail("C07:no_improvement", "optimisation %s delivered objective %r after %r" % (it.key, v, it.objvals[-1]))
        it.objvals.append(v)

    def judge_optimum(self, it):
        if not it.args["obj"]:
            raise InvalidCase("no objective")
        sols = it.problem.sols
        if not it.delivered:
            if sols:
                self.fail("C07:missed", "optimisation %s ended uninterrupted without any solution though %r is feasible" % (it.key, sols[0]))
            return
        last = it.objvals[-1]
        for s in sols:
            v = self.objective_values(it, s)
            if self.better(it.args["obj"], v, last):
                self.fail("C07:not_optimal", "optimisation %s ended uninterrupted at objective %r but %r achieves %r" % (it.key, last, s, v))
                return

    def op_optsol(self, i, sid, mid, args):
        """optimal_solution in one call."""
        it = It("os%d" % i, "opt", sid, mid, args)
        rm = self.models[mid]
        solver = self.solvers[sid]
        kw = self.run_args(it)
        it.rmodel, it.snapshot_vars, it.params = rm, list(rm.vars), dict(rm.params)
        it.nprobes = rm.nprobes
        it.problem = rm.problem(args.get("extra", []))
        extra = self.extras(rm, args.get("extra", []))
        if extra:
            kw["additional_constraints"] = self.form(it, extra)
        it.nprobes += sum(1 for c in args.get("extra", []) if c["k"] == "probe")
        if not args["obj"]:
            raise InvalidCase("no objective")
        objs = self.objectives(rm, args["obj"])
        ob = objs[0] if len(objs) == 1 and not args.get("aslist") else self.form(it, objs)
        if args.get("seed") is not None:
            random.seed(args["seed"])
        for o in self.its.values():
            if o.sid == sid and o.started and o.done is None:
                o.overlapped = True
        self.last_on_solver[sid] = it
        self.actor(it.key)
        prev, self.cur = self.cur, it
        try:
            kind, val = self.call(i, lambda: solver.optimal_solution(rm.m, ob, **kw))
        finally:
            self.cur = prev
        if kind != "ok":
            self.ev(it.key, kind, type(val).__name__)
            natural = (ZeroDivisionError,) if self.may_err(it) else ()
            self.judge_exc("crash:optimum", val, "optimal_solution", natural)
            return
        self.judge_absorbed("optimal_solution")
        self.count("optima")
        sol, claim = val.solution, val.is_optimal
        self.ev(it.key, "optsol", bool(claim), None if sol is None else self.canon(it, sol))
        self.judge_overrun(it)
        k, st = self.quiet(solver.get_stats)
        r = st.interrupt if k == "ok" else "?"
        sols = it.problem.sols
        best = None
        if sol is not None:
            vals = self.canon(it, sol)
            best = None if vals is None else self.objective_values(it, vals)
        if r is None and self.unmet_failure(it, best):
            self.fail("C09:hidden", "optimal_solution returned %r although a constraint fails on an assignment no other constraint excludes" % (val,))
        if sol is not None:
            vals = self.canon(it, sol)
            if vals is None or self.wrong(it, vals):
                self.fail("C07:infeasible", "optimal_solution returned %r, which does not satisfy the model" % (sol,))
                return
            v = self.objective_values(it, vals)
            if claim:
                for s in sols:
                    w = self.objective_values(it, s)
                    if self.better(args["obj"], w, v):
                        self.fail("C07:false_claim", "optimal_solution claims %r optimal with objective %r but %r achieves %r" % (vals, v, s, w))
                        break
        else:
            if claim:
                self.fail("C07:false_claim", "optimal_solution claims optimality without a solution")
            if r is None and sols and not it.problem.must_fail:
                self.fail("C07:missed", "optimal_solution found nothing uninterrupted though %r is feasible" % (sols[0],))
        timed = it.timeout is not None and (it.search > it.timeout)
        if claim and timed and it.over_evals:
            # a search step begun after the deadline means the deadline was ignored
            self.judge_overrun(it)
        if r is None and sol is not None and not claim:
            self.fail("C07:no_claim", "uninterrupted optimisation did not claim its optimum %r" % (sol,))
        if r is None and it.limit is None and it.timeout is None:
            pass
        if r == "timeout" and (it.timeout is None or not it.search > it.timeout) and not self.clock.read_cost:
            self.fail("C04:false_timeout", "optimal_solution reported a timeout (%r) after %r of search time" % (it.timeout, it.search))
        if r == "limit" and it.limit is None:
            self.fail("C03:false_limit", "optimal_solution reported a limit that was not set")
        if r is not None and claim:
            self.fail("C07:false_claim", "optimal_solution claims optimality although it was interrupted by %s" % r)
        it.done = "end"
        it.result = (bool(claim), None if sol is None else self.canon(it, sol), r)

    # ------------------------------------------------------------ statistics oracle
    def check_stats(self, it, final=False):
        if it.overlapped or self.last_on_solver.get(it.sid) is not it or not it.started or it.rmodel is None:
            return
        k, st = self.quiet(lambda: self.solvers[it.sid].get_stats())
        if k != "ok":
            self.fail("crash:stats", "get_stats raised %r" % (st,))
            return
        n = len(it.delivered)
        if st.count != n:
            self.fail("C06:count", "search %s delivered %d solutions, statistics say %r" % (it.key, n, st.count))
        if st.elapsed < 0:
            self.fail("C05:negative", "search %s reports the negative search time %r" % (it.key, st.elapsed))
        last = getattr(it, "last_elapsed", 0.0)
        if st.elapsed < last - 1e-6:
            self.fail("C05:decreasing", "search %s reports search time %r after having reported %r" % (it.key, st.elapsed, last))
        it.last_elapsed = st.elapsed
        if it.done == "error":
            # a failed step is not required to be accounted to the instant it failed at
            if st.elapsed > it.search + 1e-6 and not self.clock.read_cost:
                self.fail(self.time_tag(), "search %s reports %r of search time, %r were spent" % (it.key, st.elapsed, it.search))
        elif not self.clock.read_cost:
            if abs(st.elapsed - it.search) > 1e-6:
                self.fail(self.time_tag(), "search %s reports %r of search time, %r were spent (%s)" % (
                    it.key, st.elapsed, it.search, it.done or "paused"))
        else:
            if st.elapsed > it.calltime + 1e-6 or st.elapsed < it.search - 1e-6:
                self.fail(self.time_tag(), "search %s reports %r of search time, evaluations took %r and the calls %r" % (
                    it.key, st.elapsed, it.search, it.calltime))
        if it.done is None and st.interrupt is not None:
            self.fail("C06:early_reason", "search %s reports being interrupted by %r while still open" % (it.key, st.interrupt))
        if it.done == "error" and st.interrupt is not None and not (st.interrupt == "limit" and n == it.limit):
            self.fail("C06:wrong_reason", "search %s failed but reports being interrupted by %r" % (it.key, st.interrupt))

    def time_tag(self):
        return "C05:time" if self.case.get("prop") == "C05" else "C06:time"

    # ------------------------------------------------------------ ops on searches
    def get(self, key):
        it = self.its.get(key)
        if it is None:
            raise InvalidCase("no search %r" % key)
        return it

    def op_next(self, i, key):
        self.step(i, self.get(key))

    def op_take(self, i, key, n):
        it = self.get(key)
        for _ in range(n):
            if not self.step(i, it):
                break

    def op_drain(self, i, key):
        it = self.get(key)
        for _ in range(self.DRAIN_CAP):
            if not self.step(i, it):
                return
        self.fail("C01:endless", "search %s does not end" % key)

    def op_close(self, i, key):
        it = self.get(key)
        self.actor(it.key)
        if it.gen is None or it.done is not None:
            it.done = it.done or "closed"
            it.started = it.started
            return
        prev, self.cur = self.cur, it
        try:
            kind, val = self.call(i, it.gen.close)
        finally:
            self.cur = prev
        self.count("closed")
        self.ev(key, "close", kind)
        it.done = "closed"
        if kind != "ok":
            self.judge_exc("crash:close", val, "closing search %s" % key)
        else:
            self.judge_absorbed("closing search %s" % key)
        self.check_stats(it)

    def op_throw(self, i, key, exc):
        it = self.get(key)
        self.actor(it.key)
        if it.gen is None or it.done is not None or not it.started or not hasattr(it.gen, "throw"):
            return
        x = seams.EXC[exc]("thrown by the consumer")
        prev, self.cur = self.cur, it
        try:
            kind, val = self.call(i, lambda: it.gen.throw(x))
        finally:
            self.cur = prev
        self.count("fault:throw_" + exc)
        self.ev(key, "throw", kind, type(val).__name__)
        it.done = "error"
        if kind == "ok" or kind == "stop":
            self.fail("C09:swallowed", "search %s swallowed %r thrown into it" % (key, x))
        elif val is not x and val.__cause__ is not x and val.__context__ is not x:
            self.fail("C09:replaced", "search %s turned %r thrown into it into %r" % (key, x, val))

    def op_del(self, i, key):
        """The consumer drops its reference."""
        it = self.get(key)
        it.gen = None
        it.make = None
        it.done = it.done or "closed"
        self.count("dropped")
        self.ev(key, "del")

    def op_dwell(self, i, dt):
        self.clock.advance(dt)
        self.count("fault:consumer_pause")
        self.actor("dwell")

    def op_wall(self, i, delta):
        self.clock.step_wall(delta)

    def op_seed(self, i, n):
        random.seed(n)

    def op_mut(self, i, key, j, how):
        it = self.get(key)
        if not it.objects:
            return
        j %= len(it.objects)
        o = it.objects[j][0]
        if not isinstance(o, dict):
            return
        it.mutated.add(j)
        self.count("fault:consumer_mutation")
        try:
            if how == "clear":
                o.clear()
            elif how == "scramble":
                for k in list(o):
                    o[k] = 99
            elif how == "add":
                o["__junk__"] = 1
            elif how == "pop":
                if o:
                    o.pop(next(iter(o)))
            elif how == "swap":
                vals = list(o.values())
                for k, v in zip(list(o), reversed(vals)):
                    o[k] = v
        except TypeError:
            pass            # an immutable mapping would be fine too
        it.objects[j][1] = copy.deepcopy(o)

    def op_stats(self, i, sid):
        it = self.last_on_solver.get(sid)
        if it is not None and it.kind in ("solve", "iter", "opt") and hasattr(it, "gen") and not it.key.startswith("os"):
            self.check_stats(it)
        else:
            k, st = self.quiet(lambda: self.solvers[sid].get_stats())
            if k != "ok":
                self.fail("crash:stats", "get_stats raised %r" % (st,))
            elif it is None and (st.count, st.elapsed, st.interrupt) != (0, 0, None):
                self.fail("C06:fresh", "a solver that never ran reports %r" % (st,))

    def op_set(self, i, sid, attr, value):
        if attr == "compile":
            for it in self.its.values():
                if it.sid == sid and it.started and it.done is None:
                    return
        cfg = self.solver_cfg(sid)
        s = self.solvers[sid]
        if attr == "policy":
            s.var_selection_policy = S.Policy[value]
            cfg["policy"] = value
        elif attr == "limit":
            s.limit = self.inf(value)
            cfg["limit"] = value
        elif attr == "timeout":
            s.timeout = self.inf(value)
            cfg["timeout"] = value
        elif attr == "compile":
            s.compile_constraints = value
            cfg["compile"] = value
        else:
            raise InvalidCase("attr")
        self.count("settings_changed")
        self.settings(sid)

    def settings(self, sid):
        """A solver goes on with the settings it was last given."""
        if self.solvers[sid] is None:
            return
        s, cfg = self.solvers[sid], self.solver_cfg(sid)
        free = lambda x: None if x is None or x == "inf" or x is S.INFINITY else x
        now = free(s.timeout), free(s.limit), s.var_selection_policy, s.compile_constraints
        want = free(cfg["timeout"]), free(cfg["limit"]), S.Policy[cfg["policy"]], cfg["compile"]
        if now != want:
            self.fail("C12:settings", "the settings of solver %d (timeout, limit, policy, compilation) are %r, they were set to %r" % (sid, now, want))

    def op_renew(self, i, mid, spec):
        """The caller drops a model and everything run on it, and builds another one (perhaps at the same address)."""
        import gc
        for it in self.its.values():
            if it.mid == mid:
                it.gen = it.make = it.rmodel = None
                it.done = it.done or "closed"
        for k in [k for k in getattr(self, "_shared", {})]:
            del self._shared[k]
        self.models[mid] = None
        gc.collect()
        self.models[mid] = RealModel(self, spec)
        self.count("models_renewed")

    def op_gc(self, i):
        import gc
        gc.collect()

    # ------------------------------------------------------------ edits
    def edit(self, mid):
        rm = self.models[mid]
        rm.unchanged()
        self.edits.add(mid)
        return rm

    def op_addvar(self, i, mid, v):
        rm = self.edit(mid)
        if v["n"] in rm.var_obj:
            raise InvalidCase("dup alias")
        dom = ref.make_domain(v)
        before = set(rm.m.variables())
        kind, o = self.call(i, lambda: rm.m.add_bool_variable(name=v.get("name")) if v.get("bool") else rm.m.add_int_variable(dom, name=v.get("name")))
        self.ev("addvar", kind)
        self.count("edits")
        if kind == "exc":
            self.judge_exc("C11:addvar", o, "adding variable %r" % (v,))
            new = [n for n in rm.m.variables() if n not in before]
            if new:         # struck after taking effect
                rm.note_var(v, rm.m.get_variable(new[0]))
            return
        self.judge_absorbed("add_int_variable")
        rm.note_var(v, o)

    def op_mutdom(self, i, mid, alias, how):
        """The caller changes the collection it once gave as a domain: that is no edit of the model."""
        d = self.models[mid].domains.get(alias)
        if isinstance(d, (list, set, dict)):
            if how == "clear":
                d.clear()
            elif how == "add":
                if isinstance(d, list):
                    d.append(77)
                elif isinstance(d, set):
                    d.add(77)
                else:
                    d[77] = None
            elif how == "reverse" and isinstance(d, list):
                d.reverse()
            elif d:
                if isinstance(d, dict):
                    d.popitem()
                else:
                    d.pop()
            self.count("fault:domain_collection_reused")
        self.ev("mutdom", alias, how)

    def op_addcon(self, i, mid, c):
        rm = self.edit(mid)
        o = rm.make_con(c)
        nb = len(list(rm.m.constraints()))
        sb = rm.m.solvable()
        kind, val = self.call(i, lambda: rm.m.add_constraint(o))
        self.ev("addcon", kind)
        self.count("edits")
        if kind == "exc":
            self.judge_exc("C11:addcon", val, "adding constraint %r" % (c,))
            if len(list(rm.m.constraints())) != nb or rm.m.solvable() != sb:
                rm.note_con(c)
            return
        self.judge_absorbed("add_constraint")
        constant = c["k"] == "const" or c["k"] == "expr" and not ref.vars_of(c["e"]) and not ref.params_of(c["e"])
        if constant and ref.con_holds(c, {}, {}) is False and rm.m.solvable():
            self.fail("C11:const_solvable", "a model with a never satisfied constant constraint still says it is solvable")
        rm.note_con(c)

    def op_addparam(self, i, mid, p):
        rm = self.edit(mid)
        if p["n"] in rm.param_obj:
            raise InvalidCase("dup param")
        before = set(rm.m.variables())
        kind, o = self.call(i, lambda: rm.m.add_parameter(ref.val(p["value"]), name=p.get("name")))
        if kind == "exc":
            self.judge_exc("C11:addparam", o, "adding parameter")
            new = [n for n in rm.m.variables() if n not in before]
            if new:         # struck after taking effect
                rm.note_param(p, rm.m.get_variable(new[0]))
            return
        self.judge_absorbed("add_parameter")
        rm.note_param(p, o)

    def op_setp(self, i, mid, p, value):
        rm = self.models[mid]
        if p not in rm.param_obj:
            raise InvalidCase("param")
        for it in self.its.values():
            if it.mid == mid and it.started and it.done is None:
                return                      # parameters are only updated between runs on the model
        rm.param_obj[p].value = ref.val(value)
        rm.params[p] = value
        self.count("param_updates")
        self.ev("setp", p, value)

    def op_unsolv(self, i, mid):
        rm = self.edit(mid)
        kind, val = self.call(i, lambda: rm.m.set_solvable(False))
        if kind == "exc":
            self.judge_exc("C11:unsolv", val, "set_solvable")
            rm.solvable = rm.m.solvable()
            return
        self.judge_absorbed("set_solvable")
        rm.solvable = False
        if rm.m.solvable():
            self.fail("C11:unsolvable_ignored", "a model declared unsolvable still says it is solvable")
        self.count("edits")

    def op_bad(self, i, mid, what, a=0):
        """An addition that must be rejected and leave no trace."""
        rm = self.edit(mid)
        m = rm.m
        names = [o.name for o in list(rm.var_obj.values()) + list(rm.param_obj.values()) if not o.name.startswith("_")]
        allvars = list(rm.var_obj.values())
        want = (ValueError, TypeError)
        if what == "name":
            bad = ["1x", "", "a b", "a:b", "_x", "é", "-", "a.b", "x\n", " x", "x ", "\nx", "x-y", "x$"][a % 14]
            fn = lambda: m.add_int_variable((1, 2), name=bad)
        elif what == "dupname":
            if not names:
                return
            n = names[a % len(names)]
            fn = [lambda: m.add_int_variable((1, 2), name=n), lambda: m.add_bool_variable(name=n), lambda: m.add_parameter(3, name=n)][a % 3]
        elif what == "pname":
            bad = ["1x", "", "a b", "a:b", "_x", "x\n", "x ", "x-y"][a % 8]
            fn = lambda: m.add_parameter(3, name=bad)
        elif what == "dupvalue":
            dom = [(1, 2, 1), [5, 3, 3], (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0), [1000, 2, 1000], (2, 2), (1, True), [-1, 0, -1], (v % 4 for v in range(5))][a // 2 % 8]
            fn = lambda: m.add_int_variable(dom, name=["fresh_1", None][a % 2])
        elif what == "undef":
            u = S.Variable("nowhere")
            if a % 3 == 0 or not allvars:
                fn = lambda: m.add_constraint(u == 1)
            elif a % 3 == 1:
                fn = lambda: m.add_constraint(allvars[a % len(allvars)] + u == 1)
            else:
                fn = lambda: m.add_all_different_constraint((allvars + [u], [u] + allvars, (x for x in [u] + allvars))[a // 3 % 3])
        elif what == "param":       # a parameter is no variable: it cannot be all-different to anything
            pars = list(rm.param_obj.values())
            if not pars:
                return
            p = pars[a % len(pars)]
            fn = lambda: m.add_all_different_constraint((allvars + [p], [p] + allvars[:1], (x for x in [p])  if not allvars else (x for x in allvars[:1] + [p]))[a // 3 % 3])
        elif what == "type":
            bad = ["x == 1", 3, None, [1], 2.5, lambda s: True, 0, 1, (), S.Constraint][a % 10]
            fn = lambda: m.add_constraint(bad)
        elif what == "badtypename":
            bad = [3, 2.5, ("x",)][a % 3]
            fn = lambda: m.add_int_variable((1, 2), name=bad)
        elif what == "fails":       # the addition fails half way through
            want = (ValueError, TypeError, RuntimeError, LookupError, ArithmeticError)

            def broken(first, err):
                yield from first
                raise err
            err = [ValueError("no more"), RuntimeError("no more"), KeyError("no more"), ZeroDivisionError("no more")][a // 3 % 4]
            name = ["fresh_2", None][a % 2]
            k = a % 7
            if k == 0:
                fn = lambda: m.add_int_variable(broken((1, 2), err), name=name)
            elif k == 1:
                fn = lambda: m.add_int_variable([1, [2], 3], name=name)
            elif k == 2:
                fn = lambda: m.add_int_variable(None, name=name)
            elif k == 3:
                fn = lambda: m.add_int_variable(5, name=name)
            elif k == 4:
                fn = lambda: m.add_all_different_constraint(broken(allvars[:2], err))
            elif k == 5:
                fn = lambda: m.add_constraint(S.Failing((), err))
            else:
                fn = lambda: m.add_all_different_constraint(allvars[:1] + [3])
                want += (AttributeError,)
        else:
            raise InvalidCase("bad")
        before = rm.state()
        kind, val = self.call(i, fn)
        self.ev("bad", what, kind, type(val).__name__)
        self.count("rejected_edits")
        after = rm.state()
        if kind != "exc":
            self.fail("C11:accepted", "the model accepted a bad addition (%s, %d)" % (what, a))
        if before != after:
            self.fail("C11:trace", "a rejected addition (%s, %d) changed the model: %r -> %r" % (what, a, before, after))
        if kind == "exc":
            self.judge_exc("C11:wrong_error", val, "a bad addition (%s, %d)" % (what, a), want)

    # ------------------------------------------------------------ end of run
    def finish(self):
        for rm in self.models:
            if rm is not None:
                rm.unchanged()
                rm.names()
                rm.reports()
        for sid in range(len(self.solvers)):
            self.settings(sid)
        for it in self.its.values():
            for j, (o, c) in enumerate(it.objects):
                if o != c:
                    self.fail("C08:changed", "solution %d delivered by search %s changed afterwards from %r to %r" % (j, it.key, c, o))
        self.count("sim_reads", self.clock.reads)

    def result(self):
        for k, v in self.clock.fired.items():
            self.count("fault:" + k, v)
        if seams.EVAL.fired:
            self.count("fault:compile_failure", seams.EVAL.fired)
        return {"log": self.log, "counters": self.counters, "t": self.clock.t, "evals": self.nevals, "switches": self.switches}


def alone(case, it, upto=None):
    """Run the same search on a freshly built model and solver, alone and without faults.

    Returns the lone search (its .delivered, .done).  Only used for searches whose model was not edited."""
    sub = {"models": [case["models"][it.mid]], "solvers": [dict(case["solvers"][it.sid], timeout=None, limit=None, policy=it.policy)],
           "ops": [], "clock": {}, "faults": {}}
    saved = seams.CLOCK, seams.EVAL.calls, seams.EVAL.fail, seams.EVAL.fired
    try:
        return _alone(sub, it, upto)
    finally:
        seams.set_clock(saved[0])
        seams.EVAL.calls, seams.EVAL.fail, seams.EVAL.fired = saved[1:]


def _alone(sub, it, upto):
    w = World(sub, accept=())
    w.run()
    args = dict(it.args)
    args.pop("timeout", None)
    args.pop("limit", None)
    w.its["a"] = It("a", "solve" if it.kind == "iter" else it.kind, 0, 0, args)
    b = w.its["a"]
    while len(b.delivered) < (upto if upto is not None else 10 ** 9) and w.step(0, b):
        pass
    return b
