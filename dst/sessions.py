"""Session properties: generators and extra oracles on top of engine.World."""
import copy
import itertools

from . import engine, gen, ref, seams
from .engine import World, Violation, alone
from .ref import InvalidCase
from .seams import derive

Q = 1.0 / 64        # simulated time quantum: all times are dyadic, so float sums are exact


class Prop:
    id = None
    accept = None
    tick = {"quick": 4000, "thorough": 100000}
    cross_hash = 0
    shrink_int = True

    def gen(self, rng, tier):
        raise NotImplementedError

    def prepare(self, case, rng):
        """Optional second pass (e.g. a dry run that tells where faults can be placed)."""
        return case

    def run(self, case):
        w = World(case, self.accepts())
        try:
            w.run()
            self.after(w, case)
        finally:
            seams.MON.stop()
        return self.summary(w)

    def accepts(self):
        return None if self.accept is None else set(self.accept)

    def after(self, w, case):
        pass

    def summary(self, w):
        r = w.result()
        r["nontrivial"] = self.nontrivial(w)
        return r

    def nontrivial(self, w):
        return w.counters.get("solutions", 0) > 0 and len(w.log) > 2


def probe(rng, vs, n=None):
    n = n or rng.randint(min(2, len(vs)), len(vs))
    return {"k": "probe", "v": rng.sample(vs, n), "e": None}


def consume(rng, keys, dwell=True, extra=()):
    """A random consumer schedule over the open searches, ending with everything drained."""
    ops = []
    for _ in range(rng.randint(0, 14)):
        r = rng.random()
        k = rng.choice(keys)
        if r < 0.45:
            ops.append(["next", k])
        elif r < 0.65:
            ops.append(["take", k, rng.randint(1, 6)])
        elif r < 0.75:
            ops.append(["mut", k, rng.randint(0, 9), rng.choice(["clear", "scramble", "add", "pop", "swap"])])
        elif r < 0.85 and dwell:
            ops.append(["dwell", Q * rng.randint(1, 10 ** rng.randint(1, 5))])
        elif r < 0.9 and extra:
            ops.append(list(rng.choice(extra)))
        else:
            ops.append(["next", k])
    tail = list(keys)
    rng.shuffle(tail)
    for k in tail:
        ops.append(["drain", k])
        if rng.random() < 0.3:
            ops.append(["next", k])     # the end stays the end
    return ops


def nested(rng, keys, f):
    """Some evaluations of user-defined constraints advance other searches."""
    if rng.random() < 0.35:
        f["nested"] = {str(rng.randint(1, rng.choice([3, 12, 60]))): [rng.choice(keys), rng.choice([1, 1, 2, 50])] for _ in range(rng.randint(1, 6))}
        if rng.random() < 0.3:      # again and again from the start of a search on
            k, first = rng.choice(keys), rng.choice([1, 1, 2, 5])
            f["nested"].update((str(first + j), [k, 1]) for j in range(rng.randint(2, 9)))
    return f


def forms(rng, a):
    """Vary the kind of sequence handed over."""
    if rng.random() < 0.3:
        a["form"] = rng.choice(["iter", "gen", "tuple"])
        if rng.random() < 0.3:
            a["aslist"] = True
    return a


def tall_model(rng):
    """More variables than the interpreter's default recursion limit, nearly all of them with one value."""
    n = rng.randint(1005, 1080)
    free = rng.sample(range(n), rng.randint(1, 3))
    vars = [{"n": "v%d" % i, "name": None if i % 2 else "n%d" % i, "dom": [0, 1] if i in free else [i % 3], "dt": "list"} for i in range(n)]
    vs = ["v%d" % i for i in rng.sample(range(n), 4) + free]
    return {"vars": vars, "params": [], "cons": [gen.constraint(rng, vs, [], ("linear", "alldiff", "expr"), 1) for _ in range(rng.randint(0, 2))]}


class C01(Prop):
    id = "C01"
    aliases = True
    accept = ("C01", "cra", "C09:hidden", "C08:changed")
    tick = {"quick": 9000, "thorough": 300000}

    def gen(self, rng, tier):
        if rng.random() < 0.0008:
            return {"models": [tall_model(rng)], "solvers": [gen.solver(rng)], "faults": {"eval_cost": Q},
                    "ops": [["open", "i0", "solve", 0, 0, {"seed": 1}], ["take", "i0", rng.randint(1, 3)], ["drain", "i0"]]}
        big = rng.random() < 0.15
        nm = 1 if rng.random() < 0.75 else 2
        kinds = rng.choice([("expr", "linear", "alldiff", "unary"), ("expr",), ("linear", "alldiff"), ("alldiff", "unary"), ("unary", "expr"),
                            ("expr", "probe", "alldiff"), ("expr", "const", "alldiff", "linear"), ("alldiff",)])
        models = [gen.model(rng, nmax=6 if big else 5, size_cap=1500 if big else 300, kinds=kinds, consmax=rng.choice([1, 2, 3, 4, 6]),
                            uniform=rng.choice([None, None, None, 3, 4]), nmin=0 if rng.random() < 0.05 else 1) for _ in range(nm)]
        ns = rng.randint(1, 2)
        solvers = [gen.solver(rng) for _ in range(ns)]
        ops, keys = [], []
        for j in range(rng.choice([1, 1, 2, 3])):
            key = "i%d" % j
            args = {}
            if rng.random() < 0.25:
                args["policy"] = rng.choice(gen.POLICIES)
            if rng.random() < 0.15:
                m = rng.randrange(nm)
            else:
                m = rng.randrange(nm)
            args["seed"] = rng.randrange(1000)
            kind = "solve"
            if not set(args) - {"seed"} and rng.random() < 0.3:
                kind = "iter"
            if rng.random() < 0.15 and kind == "solve" and models[m]["vars"]:
                vs = [v["n"] for v in models[m]["vars"]]
                args["extra"] = [c for c in [gen.constraint(rng, vs, [], ("expr", "linear", "unary", "alldiff"), 2) for _ in range(rng.randint(1, 2))] if ref.con_vars(c)]
            if kind == "solve":
                forms(rng, args)
            sid = rng.randrange(ns)
            if rng.random() < 0.15:
                ops.append(["set", sid, "policy", rng.choice(gen.POLICIES)] if rng.random() < 0.5 else ["set", sid, "compile", rng.random() < 0.5])
            ops.append(["open", key, kind, sid, m, args])
            keys.append(key)
        ops += consume(rng, keys)
        return {"models": models, "solvers": solvers, "ops": ops, "faults": nested(rng, keys, {"eval_cost": Q})}


class C02(Prop):
    """Reproducibility: same case in processes with different hash seeds must give the same log."""
    id = "C02"
    accept = ("C02", "cra", "C01")
    cross_hash = 3
    tick = {"quick": 2500, "thorough": 40000}

    def gen(self, rng, tier):
        if rng.random() < 0.3:
            # the bundled puzzle solvers
            from . import puzzles
            puzzles.load()
            kind = rng.choice(["cryptarithm", "cryptarithm", "graph", "map", "nonogram", "sudoku", "knapsack", "queens"])
            return dict(puzzles.gen_case(rng, kind, interrupts=False), kind="puzzles")
        kinds = rng.choice([("expr", "linear", "alldiff", "unary"), ("alldiff", "linear"), ("expr", "alldiff"), ("linear",)])
        models = [gen.model(rng, nmax=6, size_cap=400, kinds=kinds, consmax=5, uniform=rng.choice([None, None, 3]))]
        pol = rng.choice(gen.POLICIES + ["ORDERED", "REVERSED", "GROUPS"])
        solvers = [gen.solver(rng, policy=pol)]
        seed = rng.randrange(10 ** 6)
        ops = [["open", "a", "solve", 0, 0, {"seed": seed}]]
        ops += [["open", "b", "solve", 0, 0, {"seed": seed}]]
        ops += [["take", "a", rng.randint(1, 40)]]
        ops += [["drain", "a"], ["drain", "b"]]
        if rng.random() < 0.3:
            vs = [v["n"] for v in models[0]["vars"]]
            ops.insert(1, ["open", "o", "opt", 0, 0, {"seed": seed, "obj": [[rng.choice(["min", "max"]), gen.num(rng, vs, [], 2)]]}])
            ops.insert(2, ["drain", "o"])
        if rng.random() < 0.3:
            # earlier runs, with the generator in other states
            first = [["open", "e", "solve", 0, 0, {"seed": seed + 1}], rng.choice([["drain", "e"], ["take", "e", rng.randint(1, 3)], ["next", "e"]])]
            if rng.random() < 0.3:
                first.append(["open", "f", "solve", 0, 0, {"seed": seed + 2}])
                first.append(["drain", "f"])
            ops[:0] = first
        return {"models": models, "solvers": solvers, "ops": ops}

    def after(self, w, case):
        if w.its.get("e") is not None:
            prefix_oracle(w, case, "C02:earlier")
        a, b = w.its.get("a"), w.its.get("b")
        its = [it for it in (a, b) if it is not None and it.done == "end"]
        for it in its:
            pol = it.policy
            names = it.problem.names
            if pol in ("ORDERED", "REVERSED"):
                doms = it.problem.doms
                pos = [{v: i for i, v in enumerate(d)} for d in doms]
                keyf = lambda s: [p[v] for p, v in zip(pos, s)]
                if pol == "REVERSED":
                    kf = lambda s: keyf(s)[::-1]
                else:
                    kf = keyf
                try:
                    exp = sorted(it.delivered, key=kf)
                except KeyError:
                    continue
                if exp != it.delivered:
                    w.fail("C02:order", "policy %s delivered %r..., expected the lexicographic order %r... over %r" % (pol, it.delivered[:6], exp[:6], names))
            else:
                self.tree_order(w, it)
        if len(its) == 2 and a.args.get("seed") == b.args.get("seed") and a.delivered != b.delivered:
            w.fail("C02:repeat", "two runs with identical settings delivered different sequences: %r... and %r..." % (a.delivered[:6], b.delivered[:6]))

    def tree_order(self, w, it):
        """Any other policy but the random one fixes an order of the variables, in which depth-first search is lexicographic:
        fewest (most) values first, in fewest (most) constraints first, or whatever GROUPS prefers."""
        pol, names = it.policy, it.problem.names
        if pol == "RANDOM" or len(it.delivered) < 2 or len(names) > 6:
            return
        rm = it.rmodel or w.models[it.mid]
        n = len(names)
        keys = []       # every one of them must order two variables for them to be taken as ordered
        if pol in ("MIN_BOUND", "MAX_BOUND"):
            keys.append([len(d) for d in it.problem.doms])
        elif pol in ("MIN_CONSTRAINT", "MAX_CONSTRAINT"):
            cvs = [(set(c.vars()), isinstance(c, engine.S.AllDifferentConstraint)) for c in rm.m.constraints()]
            real = [rm.real_name[x] for x in names]
            keys.append([sum(x in vs for vs, _ in cvs) for x in real])
            keys.append([sum(x in vs and len(vs) > 1 and not ad for vs, ad in cvs) for x in real])
        sign = -1 if pol.startswith("MAX") else 1
        before = [[j for j in range(n) if keys and all(sign * k[j] < sign * k[i] for k in keys)] for i in range(n)]
        pos = [{v: i for i, v in enumerate(d)} for d in it.problem.doms]
        try:
            rows = [[p[v] for p, v in zip(pos, s)] for s in it.delivered]
        except KeyError:
            return

        def go(blocks, left):
            """Can the rows of every block be sorted by some order of the variables left?"""
            if not left or all(len(b) < 2 for b in blocks):
                return True
            for i in left:
                if any(j in left for j in before[i]):
                    continue
                if any(b[k][i] > b[k + 1][i] for b in blocks for k in range(len(b) - 1)):
                    continue
                sub = [list(g) for b in blocks for _, g in itertools.groupby(b, lambda r: r[i])]
                if go(sub, [j for j in left if j != i]):
                    return True
            return False
        if not go([rows], list(range(n))):
            w.fail("C02:order", "policy %s delivered %r..., over %r with %r values: not the order of a search that decides %s" % (
                pol, it.delivered[:6], names, [len(d) for d in it.problem.doms],
                {"B": "variables with %s values first", "C": "variables in %s constraints first", "G": "the variables in some order"}[
                    pol[4] if keys else "G"].replace("%s", "fewer" if sign > 0 else "more")))

    def prepare(self, case, rng):
        if case.get("kind") == "puzzles":
            from . import puzzles
            return puzzles.PuzzleProp.prepare(self, case, rng)
        return case

    def run(self, case):
        if case.get("kind") == "puzzles":
            from . import puzzles
            w = puzzles.PuzzleWorld(self.id, case, self.accepts())
            try:
                w.run()
            finally:
                seams.MON.stop()
            return w.result()
        return super().run(case)


class C03(Prop):
    id = "C03"
    aliases = True
    accept = ("C03", "C01:unsound", "C01:shape", "C01:repeat", "C01:incomplete", "cra")
    tick = {"quick": 9000, "thorough": 250000}

    def gen(self, rng, tier):
        models = [gen.model(rng, nmax=4, size_cap=200, consmax=3) for _ in range(rng.choice([1, 1, 2]))]
        nm = len(models)
        many = rng.random() < 0.01
        if many:        # hundreds of solutions
            models[0] = gen.model(rng, nmin=2, nmax=2, uniform=rng.choice([18, 24, 33, 34]), size_cap=1200, consmax=1, kinds=("unary", "linear"))
        lim = lambda: rng.choice([255, 256, 257, 258, 300, 400, 512, 513, 1000, 1024]) if many and rng.random() < 0.8 else rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 20, 50, 99, 2 ** 31, 2 ** 63 - 1, 2 ** 63, 10 ** 30, None, "inf"])
        solvers = [gen.solver(rng, limit=lim()) for _ in range(rng.choice([1, 1, 2]))]
        ops, keys = [], []
        for j in range(rng.randint(1, 5)):
            key = "i%d" % j
            args = {"seed": rng.randrange(100)}
            if rng.random() < 0.5:
                args["limit"] = lim()
            kind = "solve"
            m = rng.randrange(nm)
            if rng.random() < 0.2 and "limit" not in args:
                kind = "iter"
            elif rng.random() < 0.2:
                kind = "opt"
                vs = [v["n"] for v in models[m]["vars"]]
                args["obj"] = [[rng.choice(["min", "max"]), gen.num(rng, vs, [], 2)]]
            sid = rng.randrange(len(solvers))
            if rng.random() < 0.3:
                ops.append(["set", sid, "limit", lim()])
            ops.append(["open", key, kind, sid, m, args])
            r = rng.random()
            if r < 0.25:
                ops.append(["take", key, rng.randint(1, 5)])
                if rng.random() < 0.3:
                    ops.append(["dwell", Q * rng.randint(1, 1000)])
                if rng.random() < 0.5:
                    ops.append(["close", key])
                else:
                    keys.append(key)
            elif r < 0.35:
                ops.append(["next", key])
                keys.append(key)
            else:
                ops.append(["drain", key])
                if rng.random() < 0.3:
                    ops.append(["next", key])
        for k in keys:
            ops.append(["drain", k])
        if rng.random() < 0.3:
            ops.insert(rng.randrange(len(ops)), ["wall", rng.choice([-1, 1]) * rng.randint(1, 10 ** 6)])
        return {"models": models, "solvers": solvers, "ops": ops, "faults": {"eval_cost": Q}}

    def after(self, w, case):
        prefix_oracle(w, case, "C03:prefix")
        for it in w.its.values():
            if it.limit is None or not it.started or it.done != "end" or it.kind == "opt" or it.timeout is not None:
                continue
            want = min(max(0, it.limit), len(it.problem.sols))
            if len(it.delivered) != want and not it.problem.must_fail:
                w.fail("C03:count", "search %s limited to %r delivered %d of %d solutions" % (it.key, it.limit, len(it.delivered), len(it.problem.sols)))

    def nontrivial(self, w):
        return w.counters.get("cut_limit", 0) > 0


def prefix_oracle(w, case, tag):
    """What a search delivered is a prefix of what the same search delivers alone, unlimited and untimed."""
    for it in w.its.values():
        if not it.started or it.gen is None and not it.delivered:
            continue
        if it.args.get("seed") is None:
            continue
        b = alone(case, it, upto=len(it.delivered))
        if b.delivered != it.delivered:
            w.fail(tag, "search %s delivered %r..., alone and uncut it delivers %r..." % (it.key, it.delivered[:8], b.delivered[:8]))


class C04(Prop):
    id = "C04"
    accept = ("C04", "C01", "C07:false_claim", "C06:reason", "cra")
    tick = {"quick": 9000, "thorough": 250000}

    def gen(self, rng, tier):
        models = []
        for _ in range(rng.choice([1, 1, 2])):
            m = gen.model(rng, nmax=6, nmin=3, size_cap=rng.choice([200, 700, 1500]), kinds=("linear", "alldiff", "expr"), consmax=2,
                          uniform=rng.choice([None, 3, 4, 2]))
            vs = [v["n"] for v in m["vars"]]
            for _ in range(rng.randint(1, 3)):
                m["cons"].append(probe(rng, vs, rng.choice([None, len(vs), min(2, len(vs))])))
            if rng.random() < 0.35 and len(vs) > 1:     # much search, few or no solutions
                m["cons"].append({"k": "probe", "v": vs, "e": ["eq", ["sum"] + [["v", v] for v in vs], ["c", rng.choice([-50, 3, 9])]]})
            models.append(m)
        cost = Q * rng.choice([1, 1, 4, 64])
        tmo = lambda: rng.choice([None, "inf", 0, cost * 0.5, cost * (rng.randint(1, 10) + 0.5), cost * (rng.randint(5, 300) + 0.5), cost * (rng.randint(5, 300) + 0.5),
                                  cost * (rng.randint(50, 3000) + 0.5), 1e9])
        solvers = [gen.solver(rng, timeout=tmo()) for _ in range(rng.choice([1, 2]))]
        ops, keys = [], []
        for j in range(rng.randint(1, 4)):
            key = "i%d" % j
            args = {"seed": rng.randrange(100)}
            if rng.random() < 0.5:
                args["timeout"] = tmo()
            kind = "solve"
            m = rng.randrange(len(models))
            sid = rng.randrange(len(solvers))
            if rng.random() < 0.2 and "timeout" not in args:
                kind = "iter"
            elif rng.random() < 0.2:
                kind = "opt"
                vs = [v["n"] for v in models[m]["vars"]]
                args["obj"] = [[rng.choice(["min", "max"]), gen.num(rng, vs, [], 2)]]
            if rng.random() < 0.25:
                ops.append(["set", sid, "timeout", tmo()])
            if rng.random() < 0.15:
                vs = [v["n"] for v in models[m]["vars"]]
                a = {"seed": args["seed"], "obj": [[rng.choice(["min", "max"]), gen.num(rng, vs, [], 2)]]}
                if "timeout" in args:
                    a["timeout"] = args["timeout"]
                ops.append(["optsol", sid, m, a])
                continue
            ops.append(["open", key, kind, sid, m, args])
            if rng.random() < 0.6:
                for _ in range(rng.randint(1, 6)):
                    ops.append([rng.choice(["next", "take"]), key] if rng.random() < 0.0 else ["take", key, rng.randint(1, 5)])
                    if rng.random() < 0.7:
                        ops.append(["dwell", cost * rng.choice([1, 10, 1000, 10 ** 6])])
            ops.append(["drain", key])
        f = {"eval_cost": cost}
        if rng.random() < 0.4:
            f["stalls"] = {str(rng.randint(1, 400)): cost * rng.choice([10, 100, 10 ** 4]) for _ in range(rng.randint(1, 3))}
        return {"models": models, "solvers": solvers, "ops": ops, "faults": f}

    def after(self, w, case):
        prefix_oracle(w, case, "C04:prefix")

    def nontrivial(self, w):
        return w.counters.get("cut_timeout", 0) > 0


class C05(Prop):
    id = "C05"
    accept = ("C05", "C04", "C01:incomplete", "cra")
    tick = {"quick": 8000, "thorough": 200000}

    def gen(self, rng, tier):
        case = C04().gen(rng, tier)
        ops = []
        step = lambda: rng.choice([-1, 1, -1]) * Q * rng.choice([1, 64, 64 * 60, 64 * 3600, 64 * 86400 * 365])
        for op in case["ops"]:
            ops.append(op)
            if rng.random() < 0.4:
                ops.append(["wall", step()])
        case["ops"] = ops
        f = case["faults"]
        if rng.random() < 0.8:
            f["eval_wall"] = {str(rng.randint(1, rng.choice([5, 60, 400]))): step() for _ in range(rng.randint(1, 5))}
        c = {}
        if rng.random() < 0.6:
            c["jumps"] = {str(rng.randint(1, rng.choice([5, 30, 300]))): step() for _ in range(rng.randint(1, 5))}
        if rng.random() < 0.3:
            c["skew"] = rng.choice([-0.5, 0.25, 1.0, -1.0, 8.0])
        if rng.random() < 0.3:
            a = rng.randint(1, 100)
            c["freeze"] = [a, a + rng.randint(1, 300)]
        case["clock"] = c
        case["prop"] = "C05"
        return case

    def nontrivial(self, w):
        return bool(w.clock.fired) and w.nevals > 0


class C06(Prop):
    id = "C06"
    accept = ("C06", "C03:false_limit", "C03:unreported", "C04:false_timeout", "C01:incomplete", "cra")
    tick = {"quick": 9000, "thorough": 200000}

    def gen(self, rng, tier):
        models = []
        for _ in range(rng.choice([1, 2])):
            m = gen.model(rng, nmax=5, nmin=1, size_cap=300, kinds=("linear", "alldiff", "expr"), consmax=2, uniform=rng.choice([None, 3, None]))
            if rng.random() < 0.03:
                m = {"vars": [], "params": [], "cons": []}
            vs = [v["n"] for v in m["vars"]]
            if len(vs) > 1:
                for _ in range(rng.randint(1, 3)):
                    m["cons"].append(probe(rng, vs))
                if rng.random() < 0.3:
                    m["cons"].append({"k": "probe", "v": vs, "e": ["eq", ["sum"] + [["v", v] for v in vs], ["c", rng.choice([-50, 3, 9])]]})
            if rng.random() < 0.05:
                m["cons"].append({"k": "const", "b": False})
            models.append(m)
        cost = Q * rng.choice([1, 8])
        solvers = [gen.solver(rng, timeout=rng.choice([None, None, cost * (rng.randint(1, 200) + 0.5)]), limit=rng.choice([None, None, 1, 3, 0, 10]))
                   for _ in range(rng.choice([1, 1, 2]))]
        ops = []
        f = {"eval_cost": cost}
        for j in range(rng.randint(1, 6)):
            key = "i%d" % j
            sid = rng.randrange(len(solvers))
            m = rng.randrange(len(models))
            args = {}
            if rng.random() < 0.3:
                args["limit"] = rng.choice([None, 1, 2, 5, "inf"])
            if rng.random() < 0.3:
                args["timeout"] = rng.choice([None, cost * (rng.randint(1, 100) + 0.5)])
            kind = "solve"
            if rng.random() < 0.2:
                kind = "opt"
                vs = [v["n"] for v in models[m]["vars"]]
                args["obj"] = [[rng.choice(["min", "max"]), gen.num(rng, vs, [], 2)]]
            if rng.random() < 0.35:
                ops.append(["stats", sid] if rng.random() < 0.9 else ["gc"])
            ops.append(["open", key, kind, sid, m, args])
            for _ in range(rng.randint(0, 4)):
                ops.append(["take", key, rng.randint(1, 3)])
                if rng.random() < 0.6:
                    ops.append(["dwell", cost * rng.choice([1, 7, 1000])])
                if rng.random() < 0.4:
                    ops.append(["stats", sid])
            r = rng.random()
            if r < 0.6:
                ops.append(["drain", key])
            elif r < 0.8:
                ops.append(["close", key])
            elif r < 0.9:
                ops.append(["del", key])
            else:
                ops.append(["throw", key, "ValueError"])
            ops.append(["dwell", cost * 5])
            ops.append(["stats", sid])
            if rng.random() < 0.3:
                ops.append(["next", key])
        if rng.random() < 0.2:
            f["eval_exc"] = {str(rng.randint(1, 100)): "ProbeError"}
        if rng.random() < 0.3:
            f["stalls"] = {str(rng.randint(1, 200)): cost * rng.choice([10, 100, 10 ** 4])}
        return {"models": models, "solvers": solvers, "ops": ops, "faults": f}

    def nontrivial(self, w):
        return w.nevals > 0 and w.counters.get("solutions", 0) > 0


def objective(rng, models, m):
    vs = [v["n"] for v in models[m]["vars"]]
    n = rng.choice([1, 1, 1, 1, 2, 3])
    out = []
    if not vs:
        return [[rng.choice(["min", "max"]), ["c", rng.choice([0, 3, -1])]] for _ in range(n)]
    for _ in range(n):
        r = rng.random()
        if r < 0.07:        # values in steps other than one
            kind = rng.choice(["dyadic", "frac", "frac", "dec"])
            K = lambda: ["C" if rng.random() < 0.3 else "c", gen.odd(rng, kind)]
            e = ["sum"] + [["mul", ["v", v], K()] for v in rng.sample(vs, rng.randint(1, len(vs)))]
            if rng.random() < 0.3:
                e = rng.choice([["neg", e], ["sub", K(), e], ["add", e, K()]])
            out.append([rng.choice(["min", "max"]), e])
            continue
        use = rng.sample(vs, rng.randint(1, len(vs)))
        if r < 0.6:
            e = ["sum"] + [["mul", ["v", v], ["c", rng.choice([1, 1, 2, -1, 3, -2, 0])]] for v in use]
        elif r < 0.75:
            e = ["v", rng.choice(vs)]
        else:
            e = gen.num(rng, use, [p["n"] for p in models[m].get("params", [])], 2)
        out.append([rng.choice(["min", "max"]), e])
    return out


class C07(Prop):
    id = "C07"
    aliases = True
    accept = ("C07", "C01:shape", "C03:false_limit", "C04:false_timeout", "cra")
    tick = {"quick": 9000, "thorough": 250000}

    def gen(self, rng, tier):
        models = []
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.02:
                models.append({"vars": [], "params": [], "cons": []})
                continue
            m = gen.model(rng, nmax=5, size_cap=rng.choice([100, 400]), kinds=rng.choice([("linear", "alldiff"), ("expr", "linear", "alldiff", "unary"), ("unary",), ("linear",)]),
                          consmax=rng.choice([0, 1, 2, 3]), uniform=rng.choice([None, None, 2, 3]))
            vs = [v["n"] for v in m["vars"]]
            if len(vs) > 1 and rng.random() < 0.5:
                m["cons"].append(probe(rng, vs))
            models.append(m)
        cost = Q
        solvers = [gen.solver(rng, timeout=rng.choice([None, None, cost * (rng.randint(1, 300) + 0.5)]), limit=rng.choice([None, None, None, 1, 2, 3, 5]))
                   for _ in range(rng.choice([1, 2]))]
        ops, keys = [], []
        for j in range(rng.randint(1, 4)):
            key = "i%d" % j
            sid = rng.randrange(len(solvers))
            m = rng.randrange(len(models))
            args = {"seed": rng.randrange(100), "obj": objective(rng, models, m)}
            if rng.random() < 0.3:
                args["limit"] = rng.choice([None, 1, 2, 3, 10, "inf"])
            if rng.random() < 0.3:
                args["timeout"] = rng.choice([None, cost * (rng.randint(1, 200) + 0.5), "inf"])
            if rng.random() < 0.1 and models[m]["vars"]:
                vs = [v["n"] for v in models[m]["vars"]]
                args["extra"] = [c for c in [gen.constraint(rng, vs, [], ("linear", "unary"), 2)] if ref.con_vars(c)]
            forms(rng, args)
            if rng.random() < 0.5:
                ops.append(["optsol", sid, m, args])
                continue
            if rng.random() < 0.1:
                args["aslist"] = True
            kind = "opt"
            if rng.random() < 0.15:
                kind = "solve"
                args.pop("obj")
                args.pop("aslist", None)
            ops.append(["open", key, kind, sid, m, args])
            keys.append(key)
        f = {"eval_cost": cost}
        if keys:
            ops += consume(rng, keys)
            nested(rng, keys, f)
        return {"models": models, "solvers": solvers, "ops": ops, "faults": f}

    def nontrivial(self, w):
        return w.counters.get("solutions", 0) + w.counters.get("optima", 0) > 1


class C08(Prop):
    """Interleaved searches from one thread; threads.py adds preempted threads."""
    id = "C08"
    aliases = True
    accept = ("C08", "C01", "C07", "cra")
    tick = {"quick": 6000, "thorough": 150000}

    def gen(self, rng, tier):
        if rng.random() < 0.4:
            from . import threads
            return threads.gen_case(rng, tier)
        nm = rng.choice([1, 1, 2])
        models = [gen.model(rng, nmax=4, size_cap=150, consmax=3, kinds=("expr", "linear", "alldiff", "unary", "probe")) for _ in range(nm)]
        ns = rng.choice([1, 1, 2, 3])
        solvers = [gen.solver(rng, limit=rng.choice([None, None, None, 2, 5])) for _ in range(ns)]
        keys, opens = [], []
        for j in range(rng.randint(2, 5)):
            key = "i%d" % j
            m = rng.randrange(nm)
            args = {"seed": rng.randrange(100)}
            kind = "solve"
            if rng.random() < 0.35:
                kind = "opt"
                args["obj"] = objective(rng, models, m)
            elif rng.random() < 0.2:
                kind = "iter"
            elif rng.random() < 0.2:
                args["limit"] = rng.choice([None, 1, 3])
            opens.append(["open", key, kind, rng.randrange(ns), m, args])
            keys.append(key)
        ops = list(opens)
        for _ in range(rng.randint(5, 40)):
            r = rng.random()
            k = rng.choice(keys)
            if r < 0.6:
                ops.append(["next", k])
            elif r < 0.72:
                ops.append(["take", k, rng.randint(2, 5)])
            elif r < 0.86:
                ops.append(["mut", k, rng.randint(0, 20), rng.choice(["clear", "scramble", "add", "pop", "swap"])])
            elif r < 0.9:
                ops.append(["close", k])
            elif r < 0.92:
                ops.append(["del", k])
            elif r < 0.94:
                ops.append(["throw", k, rng.choice(["ValueError", "KeyboardInterrupt"])])
            elif r < 0.97:
                ops.append(["drain", k])
            else:
                ops.append(["gc"])
        rng.shuffle(keys)
        ops += [["drain", k] for k in keys if rng.random() < 0.8]
        f = nested(rng, keys, {"eval_cost": Q})
        if rng.random() < 0.15:
            # constraints that open and advance another search while one is still being prepared
            o = rng.choice(opens)
            vs = [v["n"] for v in models[o[4]]["vars"]]
            if len(vs) > 1:
                for x in opens:
                    if rng.random() < 0.8:
                        x[3] = o[3]
                models[o[4]]["cons"] = [{"k": "probe", "v": vs[:1], "e": None}] + models[o[4]]["cons"] + [{"k": "probe", "v": vs[-2:], "e": None}]
                others = [k for k in keys if k != o[1]]
                k = rng.choice(others)
                f["nested"] = {str(j): [k if rng.random() < 0.7 else rng.choice(others), rng.choice([1, 1, 1, 50])] for j in range(1, rng.randint(3, 25)) if rng.random() < 0.6}
                ops.insert(len(opens), [rng.choice(["next", "drain"]), o[1]])
        return {"models": models, "solvers": solvers, "ops": ops, "faults": f}

    def run(self, case):
        if "threads" in case:
            from . import threads
            return threads.run_case(case, self)
        return super().run(case)

    def after(self, w, case):
        for it in w.its.values():
            if not it.started or (it.gen is None and it.done is None):
                continue
            whole = it.done == "end"
            b = alone(case, it, upto=None if whole and it.limit is None else len(it.delivered))
            if b.delivered != it.delivered:
                w.fail("C08:differs", "search %s delivered %r... among others, but %r... alone" % (it.key, it.delivered[:8], b.delivered[:8]))
            if whole and it.limit is not None and len(it.delivered) < it.limit:
                b = alone(case, it)
                if b.delivered != it.delivered:
                    w.fail("C08:differs", "search %s delivered %r... among others, but %r... alone" % (it.key, it.delivered[:8], b.delivered[:8]))

    def nontrivial(self, w):
        return w.switches >= 3 and w.counters.get("overlap", 0) > 0


class C09(Prop):
    id = "C09"
    aliases = True
    accept = ("C09", "C01", "C07:infeasible", "C07:not_optimal", "C07:missed", "C07:false_claim", "C11", "cra")
    tick = {"quick": 6000, "thorough": 150000}

    def gen(self, rng, tier):
        kinds = rng.choice([("expr", "linear", "alldiff", "unary"), ("expr", "probe", "alldiff"), ("zdiv", "linear", "alldiff", "zdiv"), ("expr", "zdiv", "unary")])
        models = [gen.model(rng, nmax=4, nmin=1, size_cap=120, consmax=4, kinds=kinds) for _ in range(rng.choice([1, 1, 2]))]
        for m in models:
            vs = [v["n"] for v in m["vars"]]
            if len(vs) > 1 and rng.random() < 0.5:
                m["cons"].append(probe(rng, vs))
        solvers = [gen.solver(rng) for _ in range(rng.choice([1, 1, 2]))]
        ops, nxt = [], [len(models[0]["vars"])]
        f = {"eval_cost": Q}

        def search(j, final):
            sid, m = rng.randrange(len(solvers)), rng.randrange(len(models))
            r = rng.random()
            if r < 0.2:
                ops.append(["optsol", sid, m, {"obj": objective(rng, models, m), "seed": 1}])
                return
            kind = "opt" if r < 0.4 else "solve"
            a = {"seed": rng.randrange(9)}
            if kind == "opt":
                a["obj"] = objective(rng, models, m)
            ops.append(["open", "i%d" % j, kind, sid, m, a])
            if not final and rng.random() < 0.4:
                ops.append(["take", "i%d" % j, rng.randint(1, 3)])
            if not final and rng.random() < 0.15:
                ops.append(["throw", "i%d" % j, rng.choice(["KeyboardInterrupt", "ValueError", "MemoryError", "StopIteration"])])
            ops.append(["drain", "i%d" % j])
            ops.append(["next", "i%d" % j])
        n = rng.randint(1, 3)
        for j in range(n):
            if rng.random() < 0.25:
                r = rng.random()
                if r < 0.4:
                    ops.append(["addvar", 0, {"n": "w%d" % j, "name": rng.choice([None, "w%d" % j]), "dom": [1, 2], "dt": "list"}])
                elif r < 0.8:
                    vs = [v["n"] for v in models[0]["vars"]]
                    c = gen.constraint(rng, vs, [], ("expr", "linear", "alldiff", "const"), 2)
                    if ref.con_vars(c) or c["k"] == "const":
                        ops.append(["addcon", 0, c])
                else:
                    ops.append(["bad", 0, rng.choice(["name", "dupname", "dupvalue", "undef", "type", "param", "fails"]), rng.randint(0, 20)])
            search(j, False)
        search(n, True)
        if rng.random() < 0.35:
            f["eval_exc"] = {str(rng.randint(1, rng.choice([10, 100]))): rng.choice(["ProbeError", "ProbeAbort", "KeyboardInterrupt", "MemoryError", "StopIteration", "RecursionError", "TypeError", "KeyError", "ZeroDivisionError", "ValueError"])
                             for _ in range(rng.randint(1, 2))}
        if rng.random() < 0.2:
            f["compile"] = {str(rng.randint(1, 8)): rng.choice(["MemoryError", "RecursionError", "KeyboardInterrupt", "ValueError", "SystemExit"])}
        return {"models": models, "solvers": solvers, "ops": ops, "faults": f, "want_inject": rng.random() < 0.75}

    def prepare(self, case, rng):
        if not case.pop("want_inject", False):
            return case
        w = World(case, accept=())
        w.count_lines = True
        try:
            w.run()
        except (InvalidCase, Violation):
            return case
        finally:
            seams.MON.stop()
        cand = [i for i, n in w.lines.items() if n > 0]
        if not cand:
            return case
        inj = {}
        for _ in range(rng.choice([1, 1, 1, 2])):
            i = rng.choice(cand)
            # drain is many calls; the injector re-arms per call, so place within one call's typical length
            n = max(1, w.lines[i])
            hi = rng.choice([n, min(n, 60), min(n, 400)])
            inj[str(i)] = [rng.randint(1, hi), rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RecursionError", "SystemExit", "OSError"])]
        case["faults"]["inject"] = inj
        return case

    def after(self, w, case):
        # whatever happened, the last models and solvers must still give complete results
        w.inject = {}
        w.eval_exc = {}
        seams.EVAL.fail = {}
        for mid, rm in enumerate(w.models):
            for sid in range(len(w.solvers)):
                it = engine.It("f%d_%d" % (mid, sid), "solve", sid, mid, {"seed": 1})
                w.its[it.key] = it
                while w.step(-1, it):
                    pass

    def nontrivial(self, w):
        return any(k.startswith("fault:") for k in w.counters)


class C11(Prop):
    id = "C11"
    aliases = True
    accept = ("C11", "C01", "C07:infeasible", "C07:not_optimal", "C07:missed", "cra")
    tick = {"quick": 9000, "thorough": 200000}

    def gen(self, rng, tier):
        nm = rng.choice([1, 1, 2])
        models = [gen.model(rng, nmax=3, size_cap=60, consmax=2, kinds=("expr", "linear", "alldiff"), nmin=0 if rng.random() < 0.1 else 1) for _ in range(nm)]
        solvers = [gen.solver(rng) for _ in range(rng.choice([1, 2]))]
        ops, keys = [], []
        names = [[v["n"] for v in m["vars"]] for m in models]
        params = [[p["n"] for p in m.get("params", [])] for m in models]
        cnt = [0]

        def size(m):
            n = 1
            for v in models[m]["vars"]:
                n *= len(ref.dom_values(v))
            return n
        sizes = [size(m) for m in range(nm)]
        for _ in range(rng.randint(4, 22)):
            m = rng.randrange(nm)
            r = rng.random()
            if r < 0.12 and sizes[m] < 200:
                cnt[0] += 1
                al = "w%d" % cnt[0]
                d, dt = gen.domain(rng, 3)
                v = {"n": al, "name": rng.choice([None, "w%d" % cnt[0]]), "dom": d, "dt": dt}
                if rng.random() < 0.2:
                    v = {"n": al, "name": v["name"], "bool": True}
                ops.append(["addvar", m, v])
                names[m].append(al)
                sizes[m] *= 3
            elif r < 0.3 and names[m]:
                c = gen.constraint(rng, names[m], params[m], ("expr", "linear", "alldiff", "unary", "probe"), 2)
                if ref.con_vars(c):
                    ops.append(["addcon", m, c])
            elif r < 0.33:
                ops.append(["addcon", m, {"k": "const", "b": rng.random() < 0.7}])
            elif r < 0.34:
                ops.append(["unsolv", m])
            elif r < 0.37:
                cnt[0] += 1
                al = "q%d" % cnt[0]
                ops.append(["addparam", m, {"n": al, "name": rng.choice([None, "q%d" % cnt[0]]), "value": gen.small(rng)}])
                params[m].append(al)
            elif r < 0.5:
                ops.append(["bad", m, rng.choice(["name", "dupname", "pname", "dupvalue", "undef", "type", "badtypename", "param", "fails"]), rng.randint(0, 40)])
            elif r < 0.65 or not keys:
                k = "i%d" % len(keys)
                a = {"seed": rng.randrange(9)}
                kind = rng.choice(["solve", "solve", "iter"])
                if names[m] and rng.random() < 0.25:
                    kind = "opt"
                    a["obj"] = [[rng.choice(["min", "max"]), gen.num(rng, names[m], params[m], 2)] for _ in range(rng.choice([1, 1, 2]))]
                ops.append(["open", k, kind, rng.randrange(len(solvers)), m, a])
                ops.append(["next", k])
                keys.append(k)
            elif r < 0.88:
                ops.append([rng.choice(["next", "next"]), rng.choice(keys)])
            elif r < 0.9:
                ops.append([rng.choice(["close", "del"]), rng.choice(keys)])
            else:
                ops.append(["drain", rng.choice(keys)])
        for k in keys:
            ops.append(["drain", k])
        for m in range(nm):
            k = "z%d" % m
            ops += [["open", k, "solve", rng.randrange(len(solvers)), m, {"seed": 3}], ["drain", k]]
        return {"models": models, "solvers": solvers, "ops": ops, "faults": {"eval_cost": Q}}

    def nontrivial(self, w):
        return w.counters.get("edits", 0) + w.counters.get("rejected_edits", 0) > 0 and w.counters.get("solutions", 0) > 0


class C12(Prop):
    """A history of runs, then the same run on the used and on fresh objects."""
    id = "C12"
    aliases = True
    accept = ("C12", "C11:changed", "C01", "C07", "C03", "C04:false_timeout", "cra")
    tick = {"quick": 7000, "thorough": 150000}

    def gen(self, rng, tier):
        models = [gen.model(rng, nmax=4, size_cap=120, consmax=3, kinds=("expr", "linear", "alldiff", "unary", "probe")) for _ in range(rng.choice([1, 2]))]
        for m in models:
            vs = [v["n"] for v in m["vars"]]
            if len(vs) > 1 and rng.random() < 0.6:
                m["cons"].append(probe(rng, vs))
        first = list(models)
        cost = Q
        solvers = [gen.solver(rng) for _ in range(rng.choice([1, 1, 2]))]
        ops = []
        f = {"eval_cost": cost}

        def args(m, final=False):
            a = {"seed": rng.randrange(100)}
            if rng.random() < 0.3:
                a["limit"] = rng.choice([0, 1, 2, 4, None])
            if rng.random() < 0.25:
                a["timeout"] = rng.choice([cost * (rng.randint(0, 60) + 0.5), None])
            if rng.random() < 0.2:
                a["policy"] = rng.choice(gen.POLICIES)
            if rng.random() < 0.25:
                vs = [v["n"] for v in models[m]["vars"]]
                a["extra"] = [c for c in [gen.constraint(rng, vs, [], ("linear", "unary", "alldiff", "expr"), 2) for _ in range(2)] if ref.con_vars(c)]
            return a
        def change():
            sid = rng.randrange(len(solvers))
            attr = rng.choice(["policy", "compile", "limit", "timeout"])
            ops.append(["set", sid, attr, {"policy": rng.choice(gen.POLICIES), "compile": rng.random() < 0.5, "limit": rng.choice([None, "inf", 1, 3, 100]),
                                           "timeout": rng.choice([None, "inf", cost * (rng.randint(5, 100) + 0.5)])}[attr]])
        for j in range(rng.randint(1, 6) if rng.random() < 0.992 else rng.randint(20, 70)):
            sid, m = rng.randrange(len(solvers)), rng.randrange(len(models))
            if rng.random() < 0.15:
                change()
            r = rng.random()
            if r < 0.08:        # another model in the place of the old one, often much like it
                new = gen.model(rng, nmax=4, size_cap=120, consmax=3, kinds=("expr", "linear", "alldiff", "unary", "probe"))
                if rng.random() < 0.7:
                    new = copy.deepcopy(models[m])
                    if new["cons"] and rng.random() < 0.7:
                        new["cons"][rng.randrange(len(new["cons"]))] = gen.constraint(rng, [v["n"] for v in new["vars"]], [], ("linear", "unary"), 2)
                    new["cons"] = [c for c in new["cons"] if ref.con_vars(c)]
                    for v in new["vars"]:
                        if "dom" in v and rng.random() < 0.4:
                            v["dom"], v["dt"] = [x + 1 for x in v["dom"]], "list"
                models[m] = new
                ops.append(["renew", m, new])
            elif r < 0.25 and models[m].get("params"):
                ops.append(["setp", m, rng.choice(models[m]["params"])["n"], gen.small(rng)])
            a = forms(rng, args(m))
            r = rng.random()
            if r < 0.2:
                a["obj"] = objective(rng, models, m)
                ops.append(["optsol", sid, m, a])
                continue
            kind = "solve"
            if r < 0.45:
                kind = "opt"
                a["obj"] = objective(rng, models, m)
            key = "i%d" % j
            ops.append(["open", key, kind, sid, m, a])
            r = rng.random()
            if r < 0.5:
                ops.append(["drain", key])
            elif r < 0.7:
                ops += [["take", key, rng.randint(1, 4)], ["close", key]]
            elif r < 0.8:
                ops += [["take", key, rng.randint(1, 4)], ["del", key]]
            elif r < 0.9:
                ops += [["take", key, rng.randint(1, 4)]]           # left open
            else:
                ops += [["take", key, rng.randint(1, 4)], ["throw", key, "ValueError"]]
            if rng.random() < 0.3:
                ops.append(["mut", key, 0, "scramble"])
            if rng.random() < 0.3:
                ops.append(["dwell", 1000.0])
        if rng.random() < 0.3:
            f["eval_exc"] = {str(rng.randint(1, 80)): rng.choice(["ProbeError", "KeyboardInterrupt"])}
        if rng.random() < 0.15:
            change()
        sid, m = rng.randrange(len(solvers)), rng.randrange(len(models))
        if models[m].get("params") and rng.random() < 0.2:
            ops.append(["setp", m, rng.choice(models[m]["params"])["n"], gen.small(rng)])
        a = forms(rng, args(m, True))
        kind = "solve"
        r = rng.random()
        if r < 0.4:
            a["obj"] = objective(rng, models, m)
        if r < 0.2:
            ops.append(["optsol", sid, m, a])
        else:
            ops += [["open", "last", "opt" if r < 0.4 else "solve", sid, m, a], ["drain", "last"]]
        return {"models": first, "solvers": solvers, "ops": ops, "faults": f}

    def run(self, case):
        w = World(case, self.accepts())
        try:
            # the injected failure belongs to the history, not to the run compared
            last = len(case["ops"]) - (2 if case["ops"] and case["ops"][-1][0] == "drain" else 1)
            orig = w.op_open if False else None
            ops = case["ops"]
            if not ops or last < 0 or ops[last][0] not in ("open", "optsol"):
                raise InvalidCase("no final run")
            w.case = dict(case, ops=ops[:last])
            w.run()
            w.eval_exc = {}
            res = self.final(w, case, ops[last:])
            sub = {"models": [rm.spec() for rm in w.models], "solvers": [w.solver_cfg(k) for k in range(len(case["solvers"]))], "ops": [], "faults": {"eval_cost": case.get("faults", {}).get("eval_cost", 0.0)}}
            acc = self.accepts()
            clk = w.clock
            w.count("sim_reads", 0)
            w2 = World(sub, accept=())
            w2.run()
            fresh = self.final(w2, case, ops[last:])
            seams.set_clock(clk)
            if res != fresh:
                w.fail("C12:differs", "after its history the run gave %r, on fresh objects %r" % (res, fresh))
        finally:
            seams.MON.stop()
        return self.summary(w)

    def final(self, w, case, ops):
        op = ops[0]
        for it in w.its.values():
            if it.sid == (op[3] if op[0] == "open" else op[1]) and it.done is None:
                it.overlapped = True
                it.done = "closed"          # left open and never advanced again
        n = len(case["ops"])
        if op[0] == "optsol":
            w.op_optsol(n, *op[1:])
            it = w.last_on_solver[op[1]]
            return ("optsol",) + tuple(getattr(it, "result", ("error",)))
        w.op_open(n, *op[1:])
        it = w.its[op[1]]
        w.op_drain(n + 1, op[1])
        return ("run", list(it.delivered), it.done, getattr(it, "reason_seen", None))

    def nontrivial(self, w):
        return w.counters.get("solutions", 0) > 1 and len(w.its) + w.counters.get("optima", 0) > 1
