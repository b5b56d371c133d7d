"""Reference model: an independent, trivially simple reading of model specs.

Expression trees are JSON lists.  Reference values are computed here with plain Python
arithmetic, never through satisfy.
"""
import decimal
import fractions
import itertools


class InvalidCase(Exception):
    """The case is malformed (only ever reached by shrinking)."""


NUMBERS = (int, float, fractions.Fraction, decimal.Decimal)
BIN = {"add", "sub", "mul", "div", "mod", "pow", "eq", "ne", "lt", "le", "gt", "ge", "and", "or"}
CMP = {"eq", "ne", "lt", "le", "gt", "ge"}


def val(x):
    """Constants and parameter values: numbers, or text for those JSON has no numbers for."""
    if not isinstance(x, str):
        return x
    try:
        if "/" in x:
            return fractions.Fraction(x)
        if x[:1] == "d":
            return decimal.Decimal(x[1:])
        return float(x)
    except (ValueError, ZeroDivisionError, decimal.InvalidOperation):
        raise InvalidCase("constant %r" % x)


def ev(e, env, params):
    k = e[0]
    if k == "v":
        return env[e[1]]
    if k == "p":
        return val(params[e[1]])
    if k == "c" or k == "C":
        return val(e[1])
    if k == "neg":
        return -ev(e[1], env, params)
    if k == "abs":
        return abs(ev(e[1], env, params))
    if k == "not":
        return not ev(e[1], env, params)
    if k == "and":
        return ev(e[1], env, params) and ev(e[2], env, params)
    if k == "or":
        return ev(e[1], env, params) or ev(e[2], env, params)
    if k == "sum":
        r = 0
        for x in e[1:]:
            r = r + ev(x, env, params)
        return r
    if k == "prod":
        r = 1
        for x in e[1:]:
            r = r * ev(x, env, params)
        return r
    a = ev(e[1], env, params)
    b = ev(e[2], env, params)
    if k == "add":
        return a + b
    if k == "sub":
        return a - b
    if k == "mul":
        return a * b
    if k == "div":
        return a // b
    if k == "mod":
        return a % b
    if k == "pow":
        return a ** b
    if k == "eq":
        return a == b
    if k == "ne":
        return a != b
    if k == "lt":
        return a < b
    if k == "le":
        return a <= b
    if k == "gt":
        return a > b
    if k == "ge":
        return a >= b
    raise InvalidCase("op %r" % (k,))


def subtrees(e):
    """All subexpressions that are not leaves."""
    if e[0] in ("v", "p", "c", "C"):
        return []
    r = [e]
    for x in e[1:]:
        r += subtrees(x)
    return r


def vars_of(e, acc=None):
    """Variables an expression mentions, in order of first mention."""
    if acc is None:
        acc = []
    if e[0] == "v":
        if e[1] not in acc:
            acc.append(e[1])
    elif e[0] not in ("p", "c", "C"):
        for x in e[1:]:
            vars_of(x, acc)
    return acc


def has_leaf(e):
    """Mentions a variable or a parameter."""
    if e[0] in ("v", "p"):
        return True
    if e[0] in ("c", "C"):
        return False
    return any(has_leaf(x) for x in e[1:])


def build(e, variables, params, Const, memo=None):
    """Build the satisfy expression the way a user would write it (operators, raw constants).

    With a memo, equal subexpressions are one object, also across calls, and sums are accumulated in place."""
    if memo is None or e[0] in ("v", "p", "c", "C"):
        return build1(e, variables, params, Const, memo)
    key = repr(e)
    if key not in memo:
        memo[key] = build1(e, variables, params, Const, memo)
    return memo[key]


def build1(e, variables, params, Const, memo):
    k = e[0]
    if k == "v":
        return variables[e[1]]
    if k == "p":
        return params[e[1]]
    if k == "c":
        return val(e[1])
    if k == "C":
        return Const(val(e[1]))
    sub = [build(x, variables, params, Const, memo) for x in e[1:]]
    if k == "neg":
        return -sub[0]
    if k == "abs":
        return abs(sub[0])
    if k == "not":
        return (sub[0] if hasattr(sub[0], "__not__") else Const(sub[0])).__not__()
    if k == "sum":
        return sum(sub)
    if k == "prod":
        r = 1
        for x in sub:
            r = r * x
        return r
    a, b = sub
    if memo is not None and k in ("add", "sub", "mul") and isinstance(a, NUMBERS) + isinstance(b, NUMBERS) < 2:
        if k == "add":
            a += b
        elif k == "sub":
            a -= b
        else:
            a *= b
        return a
    plain = isinstance(a, NUMBERS) and isinstance(b, NUMBERS)
    if plain:
        a = Const(a)        # a user who wants plain Python constants would not write an expression
    if k == "add":
        return a + b
    if k == "sub":
        return a - b
    if k == "mul":
        return a * b
    if k == "div":
        return a / b
    if k == "mod":
        return a % b
    if k == "pow":
        return a ** b
    if k == "eq":
        return a == b
    if k == "ne":
        return a != b
    if k == "lt":
        return a < b
    if k == "le":
        return a <= b
    if k == "gt":
        return a > b
    if k == "ge":
        return a >= b
    if k == "and":
        return a & b
    if k == "or":
        return a | b
    raise InvalidCase("op %r" % (k,))


# ------------------------------------------------------------------ problems
ERR = "error"


def params_of(e):
    """Does an expression mention parameters?"""
    if e[0] == "p":
        return True
    return e[0] not in ("v", "c", "C") and any(params_of(x) for x in e[1:])


def con_vars(c):
    k = c["k"]
    if k == "expr":
        return vars_of(c["e"])
    if k in ("alldiff", "probe"):
        return list(dict.fromkeys(c["v"]))
    return []


def may_fold(e):
    """Could constant folding drop a division that fails (0 * (x / y))?"""
    if e[0] in ("v", "p", "c", "C"):
        return False
    if e[0] in ("mul", "prod", "pow", "div") and any(not has_leaf(x) for x in e[1:]) and any(y[0] in ("div", "mod", "pow") for x in e[1:] for y in subtrees(x)):
        return True
    return any(may_fold(x) for x in e[1:])


def con_holds(c, env, params):
    """True / False / ERR (the constraint's own evaluation raises)."""
    k = c["k"]
    if k == "const":
        return bool(c["b"])
    if k == "alldiff":
        vs = list(dict.fromkeys(c["v"]))
        return len({env[v] for v in vs}) == len(vs)
    if k == "probe" and c.get("e") is None:
        return True
    try:
        return bool(ev(c["e"], env, params))
    except (ZeroDivisionError, OverflowError):
        if may_fold(c["e"]):
            raise InvalidCase("error that may be folded away")
        return ERR


def dom_values(v):
    """Domain values in iteration order of the object actually given to the model."""
    return list(make_domain(v))


def make_domain(v):
    if v.get("bool"):
        return (0, 1)
    t = v.get("dt", "list")
    d = v["dom"]
    if t == "list":
        return list(d)
    if t == "tuple":
        return tuple(d)
    if t == "set":
        return set(d)
    if t == "range":
        if not d:
            return range(0)
        return range(d[0], d[0] + len(d))
    if t == "dict":
        return {x: None for x in d}
    if t == "iter":
        return iter(list(d))
    raise InvalidCase("domain type")


class Problem:
    """Snapshot of a model plus per-run constraints; brute-forced on demand."""
    MAX = 6000

    def __init__(self, vars, cons, params, solvable):
        self.names = [v["n"] for v in vars]
        self.doms = [dom_values(v) for v in vars]
        self.cons = [c for c in cons]
        self.params = dict(params)
        self.solvable = solvable
        size = 1
        for d in self.doms:
            size *= max(1, len(d))
        if size > self.MAX:
            raise InvalidCase("too large")
        self._sols = None
        self._err = None

    def _run(self):
        sols, err = [], []
        if self.solvable:
            cons = [(c, con_vars(c)) for c in self.cons]
            for vals in itertools.product(*self.doms):
                env = dict(zip(self.names, vals))
                ok, bad = True, 0
                for c, vs in cons:
                    h = con_holds(c, env, self.params)
                    if h is ERR:
                        bad += 1
                    elif not h:
                        ok = False
                        break
                if ok:
                    if bad:
                        err.append(vals)    # some complete search must trip over this assignment
                    else:
                        sols.append(vals)
        self._sols, self._err = sols, err

    @property
    def sols(self):
        """Satisfying value tuples, lexicographic in declaration and domain order."""
        if self._sols is None:
            self._run()
        return self._sols

    @property
    def solset(self):
        return set(self.sols)

    @property
    def errs(self):
        """Assignments on which a constraint fails and which no other constraint excludes."""
        if self._sols is None:
            self._run()
        return self._err

    @property
    def must_fail(self):
        return bool(self.errs)

    def satisfies(self, vals):
        env = dict(zip(self.names, vals))
        return self.solvable and all(con_holds(c, env, self.params) is True for c in self.cons)

    def step_bound(self, nprobes):
        """Most probe evaluations one search step (one variable's candidates) can take."""
        return max([1] + [len(d) for d in self.doms]) * max(1, nprobes)
