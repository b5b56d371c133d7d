"""C10: compiled, interpreted, recompiled and uncompilable constraints mean the same."""
from . import engine, gen, ref, seams
from .engine import Violation, World
from .ref import InvalidCase
from .sessions import Prop, Q, objective

LEGAL = (ZeroDivisionError,)


def same(a, b):
    return a == b or a != a and b != b      # not-a-number is itself


def deep(rng, vs, ps):
    """More nesting than the compiler accepts, or nearly."""
    e = ["v", rng.choice(vs)]
    n = rng.choice([40, 90, 150, 190, 205, 230])
    ops = rng.choice([["neg"], ["abs"], ["sub", "mul"], ["sub", "neg", "abs"], ["mod", "sub"], ["sub"], ["or", "and"]])
    for i in range(n):
        k = ops[i % len(ops)]
        if k in ("neg", "abs"):
            e = [k, e]
        elif k == "mod":
            e = ["mod", e, ["c", rng.choice([97, 101, 50])]]
        elif k == "mul":
            e = ["mul", e, ["C", -1]] if rng.random() < 0.5 else ["mul", ["c", -1], e]
        elif k == "sub":
            o = gen.leaf(rng, vs, ps)
            e = ["sub", e, o] if rng.random() < 0.7 else ["sub", ["v", rng.choice(vs)], e]
        else:
            e = [k, e, ["gt", ["v", rng.choice(vs)], ["c", 0]]]
    return ["le", e, ["c", 2]] if rng.random() < 0.5 else e


def guard(rng, vs):
    """Conditions that protect a division, as users write them."""
    x, y = rng.choice(vs), rng.choice(vs)
    d = ["sub", ["v", y], ["c", rng.choice([0, 0, 1, 2])]]
    div = [rng.choice(["eq", "le", "ne"]), [rng.choice(["div", "mod"]), ["v", x], d], ["c", rng.choice([0, 1, 2])]]
    if rng.random() < 0.5:
        return ["or", ["eq", d, ["c", 0]], div]
    return ["and", ["ne", d, ["c", 0]], div]


class C10(Prop):
    id = "C10"
    accept = ("C10", "C01", "C07", "cra")

    def gen(self, rng, tier):
        if rng.random() < 0.55:
            return self.gen_expr(rng)
        return self.gen_model(rng)

    # ------------------------------------------------------------ one expression, every way of evaluating it
    def gen_expr(self, rng):
        nv = rng.randint(1, 3)
        pool = list(gen.NAMES)
        rng.shuffle(pool)
        if rng.random() < 0.3:
            odd = list(gen.ODD_NAMES)
            rng.shuffle(odd)
            pool = odd[:rng.randint(1, 3)] + pool
        names = pool[:nv]
        vs = ["v%d" % i for i in range(nv)]
        ps = ["p%d" % i for i in range(rng.choice([0, 0, 1, 2]))]
        flavour = None
        r = rng.random()
        if r < 0.07:
            e = deep(rng, vs, ps)
        elif r < 0.15:
            e = guard(rng, vs)
        elif r < 0.21:
            flavour = rng.choice(["frac", "frac", "dec", "dyadic", "inf"])
            e = gen.exotic(rng, vs, ps, flavour)
        elif r < 0.5:
            e = gen.boolean(rng, vs, ps, rng.randint(1, 5))
        else:
            e = gen.num(rng, vs, ps, rng.randint(1, 5))
        memo = rng.random() < 0.3
        also = []
        if memo and not flavour:
            subs = [s for s in ref.subtrees(e) if ref.vars_of(s)]
            for _ in range(rng.randint(1, 3) if len(subs) < 40 and subs else 0):
                s = rng.choice(subs)
                also.append(s)
                o = gen.leaf(rng, vs, ps)
                e = rng.choice([["add", e, s], ["mul", s, e], ["sub", e, ["add", s, o]], ["add", ["mul", s, o], e], ["sum", e, s, o], ["and", e, s]])
                if rng.random() < 0.5:
                    also.append(e)
        steps = []
        env = lambda: {v: rng.randint(-10, 10) if flavour else gen.small(rng) for v in vs}
        pval = lambda: gen.odd(rng, flavour) if flavour and rng.random() < 0.8 else rng.randint(-10, 10) if flavour else gen.small(rng)
        for _ in range(rng.randint(2, 10)):
            k = rng.random()
            if ps and k < 0.25:
                steps.append(["setp", rng.choice(ps), pval()])
            elif k < 0.35:
                steps.append(["recompile"])
            elif k < 0.4:
                steps.append(["decompile"])
            else:
                steps.append(["eval", env(), rng.random() < 0.5])
        steps.append(["eval", env(), True])
        case = {"kind": "expr", "e": e, "names": names, "vs": vs, "params": {p: pval() for p in ps}, "pnames": {p: rng.choice([p, names[0], "sum", "q"]) for p in ps},
                "steps": steps, "memo": memo, "also": also}
        if rng.random() < 0.25:
            case["compile_fail"] = {str(rng.randint(1, 6)): rng.choice(["MemoryError", "RecursionError", "ValueError", "OSError"]) for _ in range(rng.randint(1, 3))}
        return case

    def run(self, case):
        if case.get("kind") == "expr":
            return self.run_expr(case)
        return super().run(case)

    def run_expr(self, case):
        S = engine.S
        w = World({"models": [], "solvers": [], "ops": []}, self.accepts())
        seams.EVAL.fail = {int(k): seams.EXC[v] for k, v in case.get("compile_fail", {}).items()}
        if len(case["names"]) < len(case["vs"]) or len(set(case["names"])) < len(case["names"]):
            raise InvalidCase("names")
        var = {v: S.Variable(n) for v, n in zip(case["vs"], case["names"])}
        params = dict(case["params"])
        try:
            par = {p: S.Parameter(case["pnames"][p], ref.val(x)) for p, x in params.items()}
            memo = {} if case.get("memo") else None
            also = [(x, S.Expression.coerce(ref.build(x, var, par, S.Const, memo))) for x in case.get("also", ())]
            e = S.Expression.coerce(ref.build(case["e"], var, par, S.Const, memo))
        except (KeyError, ZeroDivisionError, OverflowError) as ex:
            raise InvalidCase(repr(ex))
        con = S.ExpressionConstraint(e)
        fresh = False           # has con been compiled since the last parameter change?
        compiled = False

        def outcome(fn):
            try:
                return ("value", fn())
            except LEGAL as ex:
                return ("raises", type(ex).__name__)
            except RecursionError:
                return ("deep", None)
            except Exception as ex:
                return ("bad", "%s: %s" % (type(ex).__name__, ex))
        for st in case["steps"]:
            if st[0] == "setp":
                if st[1] not in par:
                    raise InvalidCase("param")
                par[st[1]].value = ref.val(st[2])
                params[st[1]] = st[2]
                fresh = False
                w.count("param_updates")
                continue
            if st[0] == "recompile":
                o = outcome(con.compile)
                if o[0] == "bad":
                    w.fail("C10:compile_error", "compiling the constraint raised %s" % o[1])
                fresh = compiled = True
                continue
            if st[0] == "decompile":
                con = S.ExpressionConstraint(e)
                fresh = compiled = False
                continue
            if set(st[1]) != set(case["vs"]):
                raise InvalidCase("env")
            env = {var[v].name: x for v, x in st[1].items()}
            used = dict(env)
            if not st[2]:       # only the variables that occur
                keep = {var[v].name for v in ref.vars_of(case["e"])}
                used = {n: x for n, x in env.items() if n in keep}
            try:
                want = ("value", ref.ev(case["e"], st[1], params))
            except (ZeroDivisionError,):
                want = ("raises", "ZeroDivisionError")
            except OverflowError:
                raise InvalidCase("overflow")
            got = {"evaluate": outcome(lambda: e.evaluate(used)), "as_function": outcome(lambda: e.as_function()(**used))}
            before = seams.EVAL.fired
            try:
                fn = e.compile_py_function()
            except Exception:
                fn = None
                w.count("not_compilable")
            if fn is not None:
                got["compile_py_function"] = outcome(lambda: fn(**used))
            if fresh or not compiled:
                got["constraint"] = outcome(lambda: con.evaluate(used))
                got["unsatisfied"] = outcome(lambda: not con.unsatisfied(used))
            for x, o in also:       # parts used elsewhere keep their meaning
                try:
                    v = ("value", ref.ev(x, st[1], params))
                except ZeroDivisionError:
                    v = ("raises", "ZeroDivisionError")
                except OverflowError:
                    raise InvalidCase("overflow")
                for how, fn2 in (("evaluate", lambda: o.evaluate(env)), ("as_function", lambda: o.as_function()(**env))):
                    g = outcome(fn2)
                    if g[0] == "deep":
                        continue
                    if g[0] == "bad" or v[0] == "value" and (g[0] != "value" or not same(g[1], v[1])):
                        w.fail("C10:part", "%s of %s, also used in %s, at %r with parameters %r gives %r, its value is %r" % (how, self.show(x), self.show(case["e"]), st[1], params, g[1], v[1]))
            w.ev("eval", sorted(st[1].items()), want, sorted((k, v[0]) for k, v in got.items()))
            w.count("evaluations")
            for how, o in got.items():
                if o[0] == "deep":
                    continue
                if want[0] == "value":
                    x = want[1]
                    good = o[0] == "value" and (bool(o[1]) == bool(x) if how == "unsatisfied" else same(o[1], x))
                    if how == "constraint" and o[0] == "value":
                        good = bool(o[1]) == bool(x)
                    if not good:
                        w.fail("C10:value", "%s of %s at %r with parameters %r gives %r, its value is %r" % (how, self.show(case["e"]), st[1], params, o[1], x))
                elif o[0] == "bad":
                    w.fail("C10:error", "%s of %s at %r raises %s" % (how, self.show(case["e"]), st[1], o[1]))
            kinds = {("raises", None) if o[0] == "raises" else ("value", bool(o[1])) for how, o in got.items() if o[0] in ("raises", "value")}
            if len(kinds) > 1:
                w.fail("C10:disagree", "%s at %r with parameters %r: %r" % (self.show(case["e"]), st[1], params, got))
            if fn is not None and seams.EVAL.fired == before:
                w.count("compiled_ok")
        r = w.result()
        r["nontrivial"] = w.counters.get("evaluations", 0) > 1 and len(ref.vars_of(case["e"])) > 0
        r["key"] = case["e"]
        return r

    @staticmethod
    def show(e):
        s = repr(e)
        return s if len(s) < 300 else s[:300] + "..."

    # ------------------------------------------------------------ histories of searches
    def gen_model(self, rng):
        odd = rng.random() < 0.4
        m = gen.model(rng, nmax=4, size_cap=100, consmax=3, kinds=rng.choice([("expr", "linear", "alldiff", "unary"), ("expr", "unary"), ("linear", "alldiff")]),
                      nparams=rng.choice([0, 1, 1, 2]), odd_names=odd, depth=4)
        vs = [v["n"] for v in m["vars"]]
        ps = [p["n"] for p in m["params"]]
        if rng.random() < 0.25:
            m["cons"].append({"k": "expr", "e": guard(rng, vs)})
        if rng.random() < 0.05:
            m["cons"].append({"k": "expr", "e": deep(rng, vs, ps)})
        if ps:
            if rng.random() < 0.5:
                m["cons"].append({"k": "expr", "e": [rng.choice(["eq", "ne", "le", "gt"]), ["sum"] + [["v", v] for v in rng.sample(vs, rng.randint(1, len(vs)))], ["p", rng.choice(ps)]]})
            if rng.random() < 0.3:
                m["cons"].append({"k": "expr", "e": ["ne", ["v", rng.choice(vs)], ["p", rng.choice(ps)]]})
            if rng.random() < 0.25:
                m["cons"].append({"k": "expr", "e": [rng.choice(["ge", "le", "ne"]), ["p", rng.choice(ps)], rng.choice([["c", 0], ["c", 1], ["p", rng.choice(ps)]])]})
        rng.shuffle(m["cons"])
        ns = rng.choice([1, 1, 2])
        solvers = [gen.solver(rng) for _ in range(ns)]
        ops = []
        for j in range(rng.randint(1, 6)):
            if ps and rng.random() < 0.6:
                for _ in range(rng.randint(1, 2)):
                    ops.append(["setp", 0, rng.choice(ps), gen.small(rng)])
            sid = rng.randrange(ns)
            if rng.random() < 0.5:
                ops.append(["set", sid, "compile", rng.random() < 0.5])
            a = {"seed": rng.randrange(99)}
            r = rng.random()
            if r < 0.15:
                ops.append(["optsol", sid, 0, dict(a, obj=objective(rng, [m], 0))])
                continue
            key = "i%d" % j
            if r < 0.3:
                a["obj"] = objective(rng, [m], 0)
            if rng.random() < 0.15:
                a["extra"] = [c for c in [gen.constraint(rng, vs, ps, ("unary", "expr", "linear"), 2)] if c["k"] == "expr"]
            ops.append(["open", key, "opt" if "obj" in a else "solve", sid, 0, a])
            if rng.random() < 0.2:
                ops += [["take", key, rng.randint(1, 3)], ["close", key]]
            else:
                ops.append(["drain", key])
        f = {"eval_cost": Q}
        if rng.random() < 0.3:
            f["compile"] = {str(rng.randint(1, 12)): rng.choice(["MemoryError", "RecursionError", "ValueError"]) for _ in range(rng.randint(1, 3))}
        return {"models": [m], "solvers": solvers, "ops": ops, "faults": f}

    def nontrivial(self, w):
        return w.counters.get("solutions", 0) + w.counters.get("optima", 0) > 0
