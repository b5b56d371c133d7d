"""Seeded generators of models, expressions and sessions."""
from . import ref

NAMES = ["a", "b", "c", "d", "x", "y", "z", "x1", "y_2", "alpha", "Foo", "q0", "q_0", "vv", "n_1", "k9"]
# legal for Model, awkward for code generation
ODD_NAMES = ["sum", "prod", "if", "not", "lambda", "None", "in", "self", "substitution", "value", "model", "eval", "abs",
             "x\ufb01", "x\u00b2", "xfi", "True", "kwargs", "args", "Const", "class", "A\u00aa", "print", "len", "is", "or", "and"]


BIG = [100, 255, 256, 257, -128, 1000, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, -2 ** 63, 2 ** 64, 10 ** 20]


def small(rng):
    if rng.random() < 0.015:
        return rng.choice(BIG)
    return rng.choice([0, 0, 1, 1, 2, 3, -1, -2, 4, 5, 7, -3, 10])


def leaf(rng, vs, ps, cprob=0.25):
    r = rng.random()
    if ps and r < 0.12:
        return ["p", rng.choice(ps)]
    if vs and r < 1 - cprob:
        return ["v", rng.choice(vs)]
    return ["C" if rng.random() < 0.35 else "c", small(rng)]


def num(rng, vs, ps, depth):
    if depth <= 0 or rng.random() < 0.18:
        return leaf(rng, vs, ps)
    k = rng.choice(["add", "add", "sub", "sub", "mul", "mul", "div", "mod", "pow", "neg", "abs", "sum", "sum", "prod", "bool", "bool2"])
    g = lambda: num(rng, vs, ps, depth - 1)
    if k in ("add", "sub", "mul"):
        return [k, g(), g()]
    if k in ("div", "mod"):
        r = rng.random()
        if r < 0.6:
            d = ["C" if rng.random() < 0.3 else "c", rng.choice([1, 2, 3, -2, 5, -1, 4])]
        else:
            d = ["add", ["abs", g()], ["c", 1]]
        return [k, g(), d]
    if k == "pow":
        if rng.random() < 0.75:
            return ["pow", g(), ["C" if rng.random() < 0.3 else "c", rng.choice([0, 1, 2, 2, 3])]]
        return ["pow", ["C" if rng.random() < 0.5 else "c", rng.choice([-2, 2, 3, -1, 1, 0])], ["mod", ["abs", g()], ["c", 3]]]
    if k in ("neg", "abs"):
        x = g()
        if not ref.has_leaf(x):
            x = leaf(rng, vs, ps, 0.0)
        return [k, x]
    if k in ("sum", "prod"):
        return [k] + [g() for _ in range(rng.randint(1, 4 if k == "sum" else 3))]
    if k == "bool":
        return boolean(rng, vs, ps, depth - 1)
    return ["and" if rng.random() < 0.5 else "or", g(), g()]


def boolean(rng, vs, ps, depth):
    r = rng.random()
    if depth <= 0 or r < 0.6:
        return [rng.choice(["eq", "ne", "lt", "le", "gt", "ge"]), num(rng, vs, ps, max(0, depth - 1)), num(rng, vs, ps, max(0, depth - 1))]
    if r < 0.95:
        return ["and" if rng.random() < 0.5 else "or", boolean(rng, vs, ps, depth - 1), boolean(rng, vs, ps, depth - 1)]
    if r > 0.98:
        return ["not", boolean(rng, vs, ps, depth - 1)]
    return num(rng, vs, ps, depth)


def odd(rng, kind):
    """A constant that has no plain source text, or is no integer."""
    if kind == "frac":
        if rng.random() < 0.1:
            return "%d/%d" % (rng.choice([1, 2, -1]), 10 ** rng.choice([7, 10, 13]))    # next to nothing
        return "%d/%d" % (rng.choice([1, 2, 3, 5, 7, 9, -1, -3, 10]), rng.choice([3, 3, 7, 10, 10, 2]))
    if kind == "dec":
        return "d" + rng.choice(["0.1", "0.3", "0.6", "1.2", "-0.7", "2", "0.30", "1E+2"])
    if kind == "dyadic":
        return rng.choice([0.5, 1.5, -0.5, 0.25, 2.0, -2.5, 1.0])
    return rng.choice(["inf", "inf", "-inf", "nan"])


def exotic(rng, vs, ps=(), kind=None):
    """A constraint with fractions, decimals, floats or infinities."""
    kind = kind or rng.choice(["frac", "frac", "dec", "dyadic", "inf"])
    K = lambda: ["p", rng.choice(ps)] if ps and rng.random() < 0.4 else ["C" if rng.random() < 0.35 else "c", odd(rng, kind)]
    V = lambda: ["v", rng.choice(vs)]
    if kind == "inf":
        lhs = rng.choice([V(), ["sum", V(), V()], ["mul", V(), ["c", 2]], ["neg", V()]])
    else:
        # (products of three are not associative in floating point)
        lhs = rng.choice([V(), ["mul", V(), K()], ["add", V(), K()], ["sum", V(), ["mul", V(), K()], K()], ["sub", K(), V()], ["sum", K(), V(), V()],
                          ["prod", V(), K(), V()] if kind != "dyadic" else ["abs", V()]])
        if rng.random() < 0.2:
            lhs = ["neg", lhs]
        if rng.random() < 0.25:
            # whole and remaining parts
            unit = rng.choice([["C", 1], ["C", 1], ["c", 1], ["c", 2], ["c", -1], K(), ["C", 0.5] if kind == "dyadic" else K()])
            lhs = [rng.choice(["div", "div", "mod"]), lhs, unit]
            if kind in ("frac", "dec") and rng.random() < 0.3:
                lhs = ["div", ["p", rng.choice(ps)] if ps else K(), rng.choice([["C", 1], ["c", 1], V()])]
    e = [rng.choice(["eq", "ne", "lt", "le", "gt", "ge"]), lhs, K()]
    if kind in ("frac", "dec") and rng.random() < 0.4:
        # made to hold exactly somewhere
        n, k = rng.randint(-4, 9), odd(rng, kind)
        r = ref.val(k) * n
        e = [rng.choice(["eq", "eq", "ne", "lt", "le", "gt"]), ["mul", V(), ["c", k]], ["c", "%d/%d" % r.as_integer_ratio() if kind == "frac" else "d%s" % r]]
    elif kind == "frac" and rng.random() < 0.12:
        # a whole number, give or take next to nothing
        tiny = ["C" if rng.random() < 0.3 else "c", "%d/%d" % (rng.choice([1, -1]), 10 ** rng.choice([7, 10, 13]))]
        lhs = rng.choice([["sum", V(), V(), tiny], ["sum", tiny, V(), ["mul", V(), ["c", 2]]], ["add", V(), tiny], ["sub", V(), tiny]])
        e = [rng.choice(["eq", "lt", "le", "gt", "ge"]), lhs, ["c", rng.randint(-2, 8)]]
    if rng.random() < 0.15:
        # two constants joined (folded when the expression is built)
        two = [rng.choice(["and", "or"]), ["C", odd(rng, kind)], ["C", rng.choice([0, odd(rng, kind)])]]
        if rng.random() < 0.5:
            e = e[:2] + [two]
        else:
            e = [rng.choice(["and", "or"]), e, two]
    if rng.random() < 0.3:
        e = ["and" if rng.random() < 0.5 else "or", e, boolean(rng, vs, (), 1)]
    return e


def constraint(rng, vs, ps, kinds=("expr",), depth=3, error=False):
    k = rng.choice(kinds)
    if k == "alldiff":
        n = rng.randint(1, len(vs))
        return {"k": "alldiff", "v": rng.sample(vs, n)}
    if k == "linear":
        use = rng.sample(vs, rng.randint(1, len(vs)))
        return {"k": "expr", "e": [rng.choice(["eq", "le", "ge", "ne", "lt", "gt"]),
                                   ["sum"] + [["mul", ["v", v], ["c", rng.choice([1, 1, 2, -1, 3])]] for v in use],
                                   ["c", small(rng)]]}
    if k == "probe":
        n = rng.randint(min(2, len(vs)), len(vs))
        v = rng.sample(vs, n)
        return {"k": "probe", "v": v, "e": boolean(rng, v, [], 1) if rng.random() < 0.3 else None}
    if k == "unary":
        e = boolean(rng, [rng.choice(vs)], ps, 2)
        return {"k": "expr", "e": e}
    if k == "zdiv":
        a, b = rng.choice(vs), rng.choice(vs)
        return {"k": "expr", "e": [rng.choice(["le", "eq", "ne"]), [rng.choice(["div", "mod"]), ["v", a], ["sub", ["v", b], ["c", rng.choice([0, 0, 1, 2])]]], ["c", small(rng)]]}
    if k == "const":
        return {"k": "const", "b": rng.random() < 0.85}
    use = rng.sample(vs, rng.randint(1, min(3, len(vs))))
    if k == "expr" and rng.random() < 0.02:
        return {"k": "expr", "e": exotic(rng, use)}
    return {"k": "expr", "e": boolean(rng, use, ps, rng.randint(1, depth))}


def domain(rng, maxlen):
    if rng.random() < 0.006:
        return [], rng.choice(["range", "list", "tuple", "set", "dict", "iter"])
    n = rng.choice([1, 2, 2, 3, 3, 3, 4, 5, 6])
    n = max(1, min(n, maxlen))
    r = rng.random()
    if r < 0.35:
        s = rng.choice([0, 0, 1, -1, -2, 5])
        return list(range(s, s + n)), rng.choice(["range", "range", "range", "list", "list", "tuple", "tuple", "set", "set", "dict", "dict", "iter"])
    d = rng.sample(range(-4, 9), n)
    if r > 0.92:        # integers the interpreter does not keep as singletons
        d = rng.sample([-1000, -300, 257, 300, 1000, 10 ** 6, 2 ** 40, -(10 ** 9)], n)
    return d, rng.choice(["list", "list", "list", "list", "tuple", "tuple", "set", "set", "dict", "dict", "iter"])


def long_domain(rng):
    n = rng.choice([33, 65, 66, 101, 129])
    s = rng.choice([0, 0, 1, -20])
    d = list(range(s, s + n * rng.choice([1, 1, 3])))
    if len(d) == n and rng.random() < 0.6:
        return d, rng.choice(["range", "range", "list", "tuple"])
    return rng.sample(d, n), rng.choice(["list", "tuple", "set"])


def model(rng, nmax=5, size_cap=360, kinds=("expr", "linear", "alldiff", "unary"), nparams=None, odd_names=False,
          consmax=5, depth=3, nmin=1, uniform=None, tight=None):
    """A model spec.  v['n'] is the alias used in specs; v['name'] the name given (None: automatic)."""
    wide = not uniform and nmax >= 4 and size_cap >= 60 and rng.random() < 0.05
    long = not wide and not uniform and nmax >= 4 and size_cap >= 100 and nmin <= 2 and rng.random() < 0.03
    for _ in range(50):
        n = rng.randint(nmin, nmax)
        if wide:
            n = rng.randint(9, 14)      # more than ten variables: x9 < x10
        if long:
            n = rng.randint(max(1, nmin), 2)
        vars, size = [], 1
        pool = list(NAMES)
        rng.shuffle(pool)
        if odd_names:
            o = list(ODD_NAMES)
            rng.shuffle(o)
            pool = o[:rng.randint(1, n + 1)] + pool
        for i in range(n):
            if uniform:
                d, dt = list(range(uniform)), "range"
            else:
                d, dt = long_domain(rng) if long and i == 0 else domain(rng, 2 if long else 1 if wide and rng.random() < 0.75 else 3 if wide else 6)
            v = {"n": "v%d" % i, "name": None if rng.random() < (0.5 if wide else 0.08) else "n%d" % i if wide else pool[i], "dom": d, "dt": dt}
            if not uniform and not wide and not (long and i == 0) and rng.random() < 0.12:
                v = {"n": "v%d" % i, "name": v["name"], "bool": True}
            vars.append(v)
            size *= len(ref.dom_values(v))
        if size <= size_cap or long:
            break
    else:
        vars = vars[:2]
    np_ = rng.choice([0, 0, 0, 1, 2]) if nparams is None else nparams
    params = [{"n": "p%d" % i, "name": None if rng.random() < 0.3 else pool[-1 - i], "value": small(rng)} for i in range(np_)]
    vs = [v["n"] for v in vars]
    ps = [p["n"] for p in params]
    cons = [constraint(rng, vs, ps, kinds, depth) for _ in range(rng.randint(0, consmax) if vs else 0)]
    if long and "unary" in kinds:
        for _ in range(rng.randint(1, 2)):
            v = ["v", "v0"]
            cons.insert(rng.randint(0, len(cons)), {"k": "expr", "e": rng.choice([
                ["eq", ["mod", v, ["c", rng.randint(2, 9)]], ["c", rng.randint(0, 3)]],
                ["ne", v, ["c", rng.randint(0, 40)]],
                ["gt", ["mul", ["sub", v, ["c", rng.randint(0, 60)]], ["sub", v, ["c", rng.randint(0, 90)]]], ["c", rng.randint(0, 500)]],
                ["or", ["lt", v, ["c", rng.randint(-10, 20)]], ["gt", v, ["c", rng.randint(10, 120)]]]])})
    # parameters only mean something next to a variable: a constraint without variables is decided when added
    cons = [c for c in cons if c["k"] != "expr" or vars_of_safe(c)]
    m = {"vars": vars, "params": params, "cons": cons}
    if rng.random() < 0.3:
        m["memo"] = True
        for _ in range(rng.randint(0, 2)):
            c = reuse(rng, cons, vs, ps)
            if c and len(cons) < consmax + 1:
                cons.insert(rng.randint(0, len(cons)), c)
    return m


def reuse(rng, cons, vs, ps):
    """Another constraint with a part of one of these."""
    subs = [s for c in cons if c["k"] == "expr" for s in ref.subtrees(c["e"]) if ref.vars_of(s)]
    if not subs:
        return None
    s = rng.choice(subs)
    k = rng.choice(["add", "add", "mul", "sub", "sum", "prod", "and", "or"])
    o = leaf(rng, vs, ps)
    e = [k, s, o] if rng.random() < 0.6 else [k, o, s]
    if rng.random() < 0.3:
        e = [rng.choice(["add", "mul", "sub"]), e, s]
    return {"k": "expr", "e": [rng.choice(["ne", "ne", "le", "ge", "lt", "eq"]), e, leaf(rng, vs, ps)]}


def vars_of_safe(c):
    return bool(ref.vars_of(c["e"])) and True


POLICIES = ["ORDERED", "REVERSED", "RANDOM", "GROUPS", "MIN_BOUND", "MAX_BOUND", "MIN_CONSTRAINT", "MAX_CONSTRAINT"]


def solver(rng, **kw):
    s = {"policy": rng.choice(POLICIES), "timeout": None, "limit": None, "compile": rng.random() < 0.6}
    s.update(kw)
    return s


def share(rng, case):
    """Let consumers reuse the objects (objectives, extra constraints, ModelSolver) they run with."""
    if "models" not in case or "ops" not in case or rng.random() < 0.5:
        return case
    case["share"] = True
    seen = {}
    for op in case["ops"]:
        if op[0] == "renew":
            seen.clear()
        if op[0] not in ("open", "optsol"):
            continue
        a = op[-1]
        if not isinstance(a, dict):
            continue
        for k in ("obj", "extra"):
            if a.get(k):
                key = (k, op[-2])
                if key in seen and rng.random() < 0.6:
                    a[k] = seen[key]
                seen[key] = a[k]
    return case


def aliases(rng, case):
    """The caller goes on using the collections given as domains."""
    if not case.get("models") or not case.get("ops") or rng.random() < 0.85:
        return case
    doms = [(m, v["n"]) for m, spec in enumerate(case["models"]) for v in spec["vars"] if not v.get("bool") and v.get("dt") in ("list", "set", "dict")]
    if doms:
        for _ in range(rng.randint(1, 3)):
            m, v = rng.choice(doms)
            case["ops"].insert(rng.randint(0, max(0, len(case["ops"]) - 2)), ["mutdom", m, v, rng.choice(["clear", "add", "drop", "reverse"])])
    return case
