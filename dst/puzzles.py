"""C13-C18: the bundled puzzle solvers, several at a time, cut, paused, interrupted and restarted.

Every kind of puzzle has its own small reference solver here, written from the puzzle's rules alone.
"""
import copy
import itertools
import json
import random

from . import engine, seams
from .engine import Hang, Violation
from .ref import InvalidCase

Q = 1.0 / 64
POLICIES = ["ORDERED", "REVERSED", "RANDOM", "GROUPS", "MIN_BOUND", "MAX_BOUND", "MIN_CONSTRAINT", "MAX_CONSTRAINT"]
CAP = 500           # reference solutions kept for puzzles with very many

A = None


class Api:
    pass


def load():
    global A
    if A is not None:
        return A
    engine.load()
    import networkx
    import termcolor
    from satisfy.cryptarithm import CryptarithmSolver
    from satisfy.graph_labeling import GraphLabelingSolver
    from satisfy.knapsack import KnapsackOptimizer
    from satisfy.nonogram import NonogramSolver
    from satisfy.sudoku import SudokuSolver
    from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
    from satisfy.tool.einstein_riddle import EinsteinRiddleSolver
    from satisfy.tool.queens import QueensSolver
    a = Api()
    a.nx, a.termcolor = networkx, termcolor
    a.crypt, a.graph, a.knapsack, a.nonogram = CryptarithmSolver, GraphLabelingSolver, KnapsackOptimizer, NonogramSolver
    a.sudoku, a.map, a.einstein, a.queens = SudokuSolver, AsciiMapColoringSolver, EinsteinRiddleSolver, QueensSolver
    A = a
    return a


HANDED = []


def handed(x):
    """A collection given to the code under test that stays its caller's."""
    HANDED.append(x)
    return x


def reuse(x):
    """What a caller may do with a list that is its own."""
    for y in x:
        if isinstance(y, list):
            reuse(y)
    x.reverse()
    if x and isinstance(x[0], int):
        x[:] = [v + 1 if v else 3 for v in x]
    x.append(x[0] if x else 1)


class Wrong(Exception):
    """A delivered solution is not one."""


# ------------------------------------------------------------------ sudoku
def full_grid(rng):
    base = [[(3 * (r % 3) + r // 3 + c) % 9 for c in range(9)] for r in range(9)]
    digits = list(range(1, 10))
    rng.shuffle(digits)

    def perm():
        out = []
        for g in rng.sample(range(3), 3):
            out += [3 * g + x for x in rng.sample(range(3), 3)]
        return out
    rs, cs = perm(), perm()
    g = [[digits[base[r][c]] for c in cs] for r in rs]
    if rng.random() < 0.5:
        g = [list(x) for x in zip(*g)]
    return g


def sudoku_solutions(grid, cap):
    """All completions (at most cap+1), by bit masks and most-constrained cell first."""
    rows, cols, blocks = [0] * 9, [0] * 9, [0] * 9
    todo = []
    g = [[v or 0 for v in row] for row in grid]
    for r in range(9):
        for c in range(9):
            v = g[r][c]
            if not v:
                todo.append((r, c))
                continue
            bit = 1 << v
            b = r // 3 * 3 + c // 3
            if (rows[r] | cols[c] | blocks[b]) & bit:
                return []
            rows[r] |= bit
            cols[c] |= bit
            blocks[b] |= bit
    out = []

    def go(left):
        if len(out) > cap:
            return
        if not left:
            out.append(tuple(tuple(row) for row in g))
            return
        best, cand = None, None
        for i, (r, c) in enumerate(left):
            m = ~(rows[r] | cols[c] | blocks[r // 3 * 3 + c // 3]) & 0x3fe
            n = bin(m).count("1")
            if best is None or n < best[0]:
                best, cand = (n, i), m
                if n <= 1:
                    break
        if not cand:
            return
        r, c = left[best[1]]
        b = r // 3 * 3 + c // 3
        rest = left[:best[1]] + left[best[1] + 1:]
        for v in range(1, 10):
            bit = 1 << v
            if cand & bit:
                g[r][c] = v
                rows[r] |= bit
                cols[c] |= bit
                blocks[b] |= bit
                go(rest)
                rows[r] ^= bit
                cols[c] ^= bit
                blocks[b] ^= bit
        g[r][c] = 0
    go(todo)
    return out


class Sudoku:
    name = "sudoku"
    default_one = True

    @staticmethod
    def gen(rng, small):
        g = full_grid(rng)
        r = rng.random()
        if small:
            blanks = rng.randint(0, 25)
        else:
            blanks = rng.choice([0, 0, 1, 2, 5, 10, 20, 30, 36, 42, 46])
        cells = rng.sample(range(81), blanks)
        if r < 0.35 and blanks >= 8:
            # blank interchangeable rectangles and whole lines, so that several completions exist
            cells = set()
            d1, d2 = rng.sample(range(1, 10), 2)
            for k in range(81):
                if g[k // 9][k % 9] in (d1, d2) and rng.random() < 0.95:
                    cells.add(k)
            cells |= set(rng.sample(range(81), max(0, blanks - len(cells))))
            cells = sorted(cells)
        for k in cells:
            g[k // 9][k % 9] = 0 if rng.random() < 0.7 else None
        givens = [(i // 9, i % 9) for i in range(81) if g[i // 9][i % 9]]
        if rng.random() < 0.22 and len(givens) > 1:
            how = rng.random()
            a, b = rng.choice(givens)
            if how < 0.5:
                g[a][b] = g[a][b] % 9 + 1       # maybe contradictory, maybe only another puzzle
            else:
                c, d = rng.choice(givens)
                g[a][b], g[c][d] = g[c][d], g[a][b]
        return {"k": "sudoku", "grid": g}

    @staticmethod
    def policies(spec):
        n = sum(not v for row in spec["grid"] for v in row)
        if n <= 30:
            return POLICIES
        return [p for p in POLICIES if p not in ("RANDOM", "MAX_BOUND")] if n <= 47 else ["GROUPS"]

    @staticmethod
    def check(spec):
        g = spec["grid"]
        if len(g) != 9 or any(len(r) != 9 for r in g) or any(v not in (None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9) or isinstance(v, bool) for r in g for v in r):
            raise InvalidCase("grid")
        if sum(not v for row in g for v in row) > 60:
            raise InvalidCase("too open")

    @staticmethod
    def build(spec, args):
        return A.sudoku(handed([list(r) for r in spec["grid"]]), **args)

    @staticmethod
    def truth(spec):
        return sudoku_solutions(spec["grid"], CAP)

    @staticmethod
    def canon(spec, s, it):
        try:
            t = tuple(tuple(r) for r in s)
        except TypeError:
            raise Wrong("a grid of type %s" % type(s).__name__)
        if len(t) != 9 or any(len(r) != 9 for r in t):
            raise Wrong("not 9x9")
        want = set(range(1, 10))
        for r in range(9):
            for c in range(9):
                v = spec["grid"][r][c]
                if v and t[r][c] != v:
                    raise Wrong("given %d at row %d, column %d became %r" % (v, r, c, t[r][c]))
        for i in range(9):
            if set(t[i]) != want:
                raise Wrong("row %d is %r" % (i, t[i]))
            if {t[r][i] for r in range(9)} != want:
                raise Wrong("column %d repeats" % i)
            b = {t[i // 3 * 3 + j // 3][i % 3 * 3 + j % 3] for j in range(9)}
            if b != want:
                raise Wrong("block %d repeats" % i)
        return t


# ------------------------------------------------------------------ nonogram
def runs(line):
    return [len(list(g)) for k, g in itertools.groupby(line) if k]


def lines_for(clue, n):
    """All 0/1 tuples of length n with these runs."""
    if not clue:
        return [(0,) * n]
    out = []

    def go(k, at, acc):
        if k == len(clue):
            out.append(tuple(acc))
            return
        rest = sum(clue[k:]) + len(clue) - k - 1
        for s in range(at, n - rest + 1):
            line = list(acc)
            for c in range(s, s + clue[k]):
                line[c] = 1
            go(k + 1, s + clue[k] + 1, line)
    go(0, 0, [0] * n)
    return out


class Nonogram:
    name = "nonogram"
    default_one = False

    @staticmethod
    def gen(rng, small):
        top = 4 if small else rng.choice([3, 4, 4, 5, 5, 6])
        nr, nc = rng.randint(1, top), rng.randint(1, top)
        r = rng.random()
        if r < 0.03:
            nr = 0
        elif r < 0.06:
            nc = 0
        d = rng.choice([0.0, 0.2, 0.35, 0.5, 0.6, 0.75, 1.0])
        pix = [[int(rng.random() < d) for _ in range(nc)] for _ in range(nr)]
        rows = [runs(x) for x in pix]
        cols = [runs([pix[i][c] for i in range(nr)]) for c in range(nc)]
        if rng.random() < 0.25 and rows and cols:
            for _ in range(rng.randint(1, 2)):
                side = rng.choice([rows, cols])
                i = rng.randrange(len(side))
                side[i] = rng.choice([[], [1], [1, 1], [2], [side is rows and nc or nr], side[i] + [1], side[i][::-1], side[i][:-1], [nc + 1]])
        elif rng.random() < 0.2 and nr and nc:
            # a picture with many others of the same clues
            k = min(nr, nc)
            rows = [[1] if i < k else [] for i in range(nr)]
            cols = [[1] if i < k else [] for i in range(nc)]
            rng.shuffle(rows)
            rng.shuffle(cols)
        return {"k": "nonogram", "rows": rows, "cols": cols}

    @staticmethod
    def gen_big(rng):
        """A large picture whose rows leave no choice."""
        nr, nc = rng.randint(8, 14), rng.randint(8, 27)
        pix = []
        for _ in range(nr):
            row = []
            one = rng.random() < 0.3
            while len(row) < nc:
                row += [1] * (1 if one and len(row) != nc - 2 else rng.choice([1, 1, 2, 3])) + [0]
            row = row[:nc] if row[nc - 1] else row[:nc - 1] + [1]
            pix.append(row if rng.random() < 0.9 else [0] * nc)
        return {"k": "nonogram", "rows": [runs(x) for x in pix], "cols": [runs([x[c] for x in pix]) for c in range(nc)], "big": True}

    @staticmethod
    def policies(spec):
        n = max(len(spec["rows"]), len(spec["cols"]))
        if spec.get("big"):
            return ["ORDERED", "MIN_BOUND"]
        return POLICIES if n <= 4 else ["GROUPS", "MIN_BOUND", "RANDOM", "MAX_BOUND"] if n <= 5 else ["GROUPS", "MIN_BOUND"]

    @staticmethod
    def check(spec):
        for side in (spec["rows"], spec["cols"]):
            if spec.get("big") and len(side) < 30 and all(not r or sum(r) + len(r) - 1 == len(spec["cols"]) for r in spec["rows"]):
                continue
            if len(side) > 7 and not (spec.get("image") and len(spec["image"]) <= 7 and len(set(spec["image"])) == 1 and len(set(spec["image"][0])) == 1) or any(not isinstance(x, int) or isinstance(x, bool) or x < 1 for cl in side for x in cl):
                raise InvalidCase("clues")

    @staticmethod
    def build(spec, args):
        return A.nonogram({"rows": handed([list(r) for r in spec["rows"]]), "columns": handed([list(c) for c in spec["cols"]])}, **args)

    @staticmethod
    def truth(spec):
        rows, cols = spec["rows"], spec["cols"]
        nr, nc = len(rows), len(cols)
        okcols = []
        for cl in cols:
            pre = set()
            for line in lines_for(cl, nr):
                for k in range(nr + 1):
                    pre.add(line[:k])
            okcols.append(pre)
        if any(() not in p for p in okcols):
            return []
        rl = [lines_for(r, nc) for r in rows]
        out = []

        def go(r, acc):
            if len(out) > CAP:
                return
            if r == nr:
                out.append(tuple(acc))
                return
            for line in rl[r]:
                if all(tuple(a[c] for a in acc) + (line[c],) in okcols[c] for c in range(nc)):
                    go(r + 1, acc + [line])
        go(0, [])
        return out

    @staticmethod
    def canon(spec, s, it):
        try:
            t = tuple(tuple(r) for r in s)
        except TypeError:
            raise Wrong("a picture of type %s" % type(s).__name__)
        rows, cols = spec["rows"], spec["cols"]
        if len(t) != len(rows) or any(len(r) != len(cols) for r in t):
            raise Wrong("picture of the wrong size")
        if any(x not in (0, 1) for r in t for x in r):
            raise Wrong("pixel values other than 0 and 1")
        for i, r in enumerate(t):
            if runs(r) != rows[i]:
                raise Wrong("row %d has runs %r, its clue is %r" % (i, runs(r), rows[i]))
        for c in range(len(cols)):
            x = runs([r[c] for r in t])
            if x != cols[c]:
                raise Wrong("column %d has runs %r, its clue is %r" % (c, x, cols[c]))
        return t


# ------------------------------------------------------------------ graph labelling
def colourings(n, edges, k):
    """All proper assignments of k colours to n nodes."""
    nb = [[] for _ in range(n)]
    for a, b in edges:
        if a == b:
            return [] if n else [()]
        nb[max(a, b)].append(min(a, b))
    out = []

    def go(acc):
        i = len(acc)
        if i == n:
            out.append(tuple(acc))
            return
        for c in range(k):
            if all(acc[j] != c for j in nb[i]):
                go(acc + [c])
    go([])
    return out


def free(n, edges, k):
    """Every node has fewer neighbours than there are colours."""
    near = [set() for _ in range(n)]
    for a, b in edges:
        if a == b:
            raise InvalidCase("loop")
        near[a].add(b)
        near[b].add(a)
    if k < 2 or max(map(len, near), default=0) >= k:
        raise InvalidCase("not free of dead ends")


class Graph:
    name = "graph"
    default_one = False

    @staticmethod
    def gen(rng, small):
        n = rng.randint(0 if rng.random() < 0.1 else 1, 4 if small else 6)
        p = rng.choice([0.0, 0.2, 0.4, 0.6, 1.0])
        edges = [[i, j] if rng.random() < 0.5 else [j, i] for i in range(n) for j in range(i) if rng.random() < p]
        rng.shuffle(edges)
        if n and rng.random() < 0.12:
            i = rng.randrange(n)
            edges.insert(rng.randint(0, len(edges)), [i, i])
        kind = rng.choice(["Graph", "Graph", "Graph", "DiGraph", "MultiGraph"])
        if kind != "Graph" and edges and rng.random() < 0.5:
            a, b = rng.choice(edges)
            edges.append([b, a])
        labels = rng.choice([["red", "blue", "green"], ["red", "blue"], ["x"], [1, 2, 3], ["a", "b", "c", "d"], [], ["r", 0, None], [0, 1]])
        if n > 5 and len(labels) > 3:
            labels = labels[:3]
        return {"k": "graph", "type": kind, "n": n, "edges": edges, "labels": labels, "nodes": rng.choice(["int", "str", "tuple", "mixed", "clash"])}

    @staticmethod
    def gen_big(rng):
        """Too many labellings to enumerate, and more labels than neighbours: no search for one has a dead end."""
        n = rng.randint(12, 60)
        labels = rng.randint(4, 12)
        degree = [0] * n
        edges = []
        for _ in range(rng.randint(0, 4 * n)):
            a, b = rng.sample(range(n), 2)
            if degree[a] < labels - 1 and degree[b] < labels - 1 and [a, b] not in edges and [b, a] not in edges:
                edges.append([a, b])
                degree[a] += 1
                degree[b] += 1
        return {"k": "graph", "type": rng.choice(["Graph", "Graph", "DiGraph", "MultiGraph"]), "n": n, "edges": edges, "labels": ["l%d" % i for i in range(labels)],
                "nodes": rng.choice(["wide", "mixed", "tuple"]), "big": True}

    @staticmethod
    def check(spec):
        if spec.get("nodes") not in ("int", "str", "tuple", "mixed", "clash", "wide") or "type" not in spec:
            raise InvalidCase("nodes")
        if any(not (0 <= x < spec["n"]) for e in spec["edges"] for x in e) or any(len(e) != 2 for e in spec["edges"]):
            raise InvalidCase("edges")
        if len({repr(x) for x in spec["labels"]}) != len(spec["labels"]) or spec["type"] not in ("Graph", "DiGraph", "MultiGraph"):
            raise InvalidCase("labels")
        if not spec.get("big"):
            if spec["n"] > 8:
                raise InvalidCase("size")
        elif spec["n"] > 80 or spec["nodes"] in ("int", "str", "clash"):
            raise InvalidCase("size")
        else:
            free(spec["n"], spec["edges"], len(spec["labels"]))

    @staticmethod
    def policies(spec):
        return POLICIES

    @staticmethod
    def node(spec, i):
        k = spec["nodes"]
        if k == "int":
            return i * 7 % 11
        if k == "str":
            return "n%d" % (i * 7 % 11)
        if k == "tuple":
            return (i % 2, i)
        if k == "wide":
            return "w%d" % i
        if k == "clash":        # different nodes that look alike
            return [0, "0", 1, "1", (1,), "(1,)", "a b", "a_b", "A", "a", "", " ", "n_0", -1, "-1", "1 "][(i + 2 * len(spec["edges"])) % 16] if i < 16 else ("z", i)
        return [i, "s%d" % i, (i,)][i % 3]

    @classmethod
    def build(cls, spec, args):
        g = getattr(A.nx, spec["type"])()
        g.add_nodes_from(cls.node(spec, i) for i in range(spec["n"]))
        for a, b in spec["edges"]:
            g.add_edge(cls.node(spec, a), cls.node(spec, b))
        return A.graph(g, list(spec["labels"]), **args)

    @staticmethod
    def truth(spec):
        if spec.get("big"):
            return range(CAP + 1)
        return colourings(spec["n"], spec["edges"], len(spec["labels"]))

    @classmethod
    def canon(cls, spec, s, it):
        if not isinstance(s, dict):
            raise Wrong("a labelling of type %s" % type(s).__name__)
        nodes = [cls.node(spec, i) for i in range(spec["n"])]
        if set(s) != set(nodes):
            raise Wrong("labelled nodes are %r" % (list(s),))
        out = []
        for x in nodes:
            k = [i for i, y in enumerate(spec["labels"]) if y is s[x] or (type(y) is type(s[x]) and y == s[x])]
            if not k:
                raise Wrong("node %r has label %r" % (x, s[x]))
            out.append(k[0])
        for a, b in spec["edges"]:
            if out[a] == out[b]:
                raise Wrong("adjacent nodes %r and %r both have label %r" % (nodes[a], nodes[b], s[nodes[a]]))
        return tuple(out)


# ------------------------------------------------------------------ ASCII maps
COLORS = ["red", "green", "blue", "yellow", "magenta", "cyan"]
TAGS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def regions(lines):
    """Maximal 8-connected areas of one non-blank character: list of cell sets, and touching pairs."""
    cell = {(r, c): ch for r, row in enumerate(lines) for c, ch in enumerate(row) if ch != " "}
    comp = {}
    n = 0
    for p in sorted(cell):
        if p in comp:
            continue
        todo = [p]
        comp[p] = n
        while todo:
            r, c = todo.pop()
            for q in itertools.product((r - 1, r, r + 1), (c - 1, c, c + 1)):
                if q in cell and q not in comp and cell[q] == cell[p]:
                    comp[q] = n
                    todo.append(q)
        n += 1
    edges = set()
    for (r, c), a in comp.items():
        for q in itertools.product((r - 1, r, r + 1), (c - 1, c, c + 1)):
            b = comp.get(q)
            if b is not None and b != a:
                edges.add((min(a, b), max(a, b)))
    return n, sorted(edges), comp


def decode():
    """Drawn cell -> (tag, colour)."""
    if not hasattr(A, "decode"):
        A.decode = {A.termcolor.colored(t, c): (t, c) for t in TAGS for c in COLORS}
    return A.decode


class Map:
    name = "map"
    default_one = True

    @staticmethod
    def gen(rng, small):
        for _ in range(60):
            h, w = rng.randint(1, 5), rng.randint(1, 8)
            chars = rng.choice(["ab", "a1", "abc", "abc ", "ab  ", "#@%", "01 ", "a", " ", "xyzw "])
            rows = []
            stick = rng.choice([0.2, 0.5, 0.75])
            for r in range(h):
                row = []
                for c in range(w):
                    near = ([row[c - 1]] if c else []) + ([rows[r - 1][c]] if r and c < len(rows[r - 1]) else [])
                    row.append(rng.choice(near) if near and rng.random() < stick else rng.choice(chars))
                rows.append(row)
            lines = ["".join(r) for r in rows]
            if rng.random() < 0.4:
                lines = [x.rstrip() if rng.random() < 0.5 else x[:rng.randint(0, len(x))] for x in lines]
            if rng.random() < 0.2:
                lines.append("")
            n, edges, _ = regions(lines)
            if n <= (5 if small else 8):
                break
        k = rng.choice([1, 2, 3, 4, 4])
        if n > 6:
            k = min(k, 3)
        return {"k": "map", "map": lines, "colors": rng.sample(COLORS, k), "as": rng.choice(["str", "list"])}

    @staticmethod
    def gen_big(rng):
        """A long thin map of more regions than there are tags to draw them with."""
        k = rng.choice([4, 5, 6, 6])
        for _ in range(100):
            w = rng.randint(20, 70)
            chars = rng.choice(["abcd", "abc ", "abcdefgh", "ab  "])
            lines = ["".join(rng.choice(chars) for _ in range(w)) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.3:
                lines += ["", lines[0][:rng.randint(0, w)]]
            n, edges, _ = regions(lines)
            try:
                free(n, edges, k)
            except InvalidCase:
                continue
            if n > 12:
                break
        else:
            lines = ["ab" * 30]
        return {"k": "map", "map": lines, "colors": rng.sample(COLORS, k), "as": rng.choice(["str", "list"]), "big": True}

    @staticmethod
    def check(spec):
        if not spec["map"] or any("." in x or "\n" in x for x in spec["map"]) or len(set(spec["colors"])) != len(spec["colors"]):
            raise InvalidCase("map")
        if any(c not in COLORS for c in spec["colors"]) or spec["as"] not in ("str", "list"):
            raise InvalidCase("map")
        if spec.get("big"):
            n, edges, _ = regions(spec["map"])
            free(n, edges, len(spec["colors"]))

    @staticmethod
    def policies(spec):
        return POLICIES

    @staticmethod
    def build(spec, args):
        m = "\n".join(spec["map"]) if spec["as"] == "str" else list(spec["map"])
        return A.map(m, list(spec["colors"]), **args)

    @staticmethod
    def truth(spec):
        if spec.get("big"):
            return range(CAP + 1)
        n, edges, _ = regions(spec["map"])
        return colourings(n, edges, len(spec["colors"]))

    @staticmethod
    def read(spec, cells, tags):
        """cells: rows of drawn cells.  -> colours by region; tags: region -> tag, kept over one search"""
        n, edges, comp = regions(spec["map"])
        if len(cells) != len(spec["map"]):
            raise Wrong("%d rows drawn for a map of %d" % (len(cells), len(spec["map"])))
        colour = {}
        for r, row in enumerate(cells):
            if len(row) < len(spec["map"][r].rstrip()):
                raise Wrong("row %d is short" % r)
            for c, x in enumerate(row):
                g = comp.get((r, c))
                if g is None:
                    if x != " ":
                        raise Wrong("the blank at row %d, column %d is drawn %r" % (r, c, x))
                    continue
                if x not in decode():
                    raise Wrong("region cell at row %d, column %d is drawn %r" % (r, c, x))
                tag, col = decode()[x]
                if col not in spec["colors"]:
                    raise Wrong("colour %r is not one of the colours" % col)
                if tags.setdefault(g, tag) != tag:
                    raise Wrong("the region at row %d, column %d is drawn with tags %r and %r" % (r, c, tags[g], tag))
                if colour.setdefault(g, col) != col:
                    raise Wrong("one region is drawn in %s and %s" % (colour[g], col))
        if n <= len(TAGS) and len(set(tags.values())) != len(tags):
            raise Wrong("different regions share a tag")
        for a, b in edges:
            if colour[a] == colour[b]:
                raise Wrong("touching regions are both %s" % colour[a])
        return tuple(spec["colors"].index(colour[g]) for g in range(n))

    @classmethod
    def canon(cls, spec, s, it):
        try:
            cells = [list(r) for r in s]
        except TypeError:
            raise Wrong("a map of type %s" % type(s).__name__)
        return cls.read(spec, cells, it.memo)


# ------------------------------------------------------------------ cryptarithms
PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "%": 2, "u-": 3, "w": 9}
CMP = ["==", "<", "<=", ">", ">=", "!="]


def render(e, style):
    """AST -> source.  style: 0 tight, 1 spaced, 2 lower case, 3 mixed case and spaces"""
    sp = " " if style in (1, 3) else ""

    def go(e):
        if e[0] == "w":
            return e[1]
        if e[0] == "u-":
            x = go(e[1])
            return "-" + (x if PREC[e[1][0]] >= 9 else "(" + x + ")")
        a, b = go(e[1]), go(e[2])
        if PREC[e[1][0]] < PREC[e[0]]:
            a = "(" + a + ")"
        if PREC[e[2][0]] <= PREC[e[0]] or e[2][0] == "u-":
            b = "(" + b + ")"
        return a + sp + e[0] + sp + b
    def stmt(e):
        if e[0] in "&|":
            return "(" + stmt(e[1]) + ")" + sp + e[0] + sp + "(" + stmt(e[2]) + ")"
        s = go(e[1])
        for op, x in zip(e[0].split(), e[2:]):
            s += sp + op + sp + go(x)
        return s
    s = stmt(e)
    if style == 2:
        s = s.lower()
    elif style == 3:
        s = "".join(ch.lower() if i % 2 else ch for i, ch in enumerate(s))
    return s


def words(e):
    if e[0] == "w":
        return [e[1]]
    return [w for x in e[1:] for w in words(x)]


def crypt_eval(e, d):
    """Value of an expression or truth of a statement: comparisons, possibly chained as in A < B < C, joined by & and |."""
    k = e[0]
    if k in "&|":           # not short-circuit: statements that divide by zero anywhere are not used
        a, b = crypt_eval(e[1], d), crypt_eval(e[2], d)
        return a and b if k == "&" else a or b
    if k.split()[0] in CMP:
        x = [crypt_eval(y, d) for y in e[1:]]
        return all({"==": a == b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "!=": a != b}[op] for op, a, b in zip(k.split(), x, x[1:]))
    if k == "w":
        return int("".join(str(d.get(ch, ch)) for ch in e[1]))
    a = crypt_eval(e[1], d)
    if k == "u-":
        return -a
    b = crypt_eval(e[2], d)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k == "/":
        return a // b
    return a % b


class Crypt:
    name = "cryptarithm"
    default_one = False

    @staticmethod
    def gen(rng, small):
        nl = rng.choice([0, 1, 2, 2, 3, 3, 3, 4]) if small or rng.random() < 0.9 else 5
        letters = rng.sample("ABCDEFGHIJKLMNOPQRSTUVWXYZ", nl)
        chars = letters * 3 + list("0123456789")[:rng.choice([0, 2, 10])]
        if not chars:
            chars = list("0123456789")

        def word():
            n = rng.choice([1, 1, 2, 2, 3, 4])
            if rng.random() < 0.12:
                return ["w", str(rng.choice([0, 1, 2, 3, 7, 10, 12, 45, 100, 7]))]
            return ["w", "".join(rng.choice(chars) for _ in range(n))]

        def expr(depth):
            if depth <= 0 or rng.random() < 0.3:
                return word()
            k = rng.choice(["+", "+", "-", "*", "*", "/", "%", "u-"])
            if k == "u-":
                return ["u-", expr(depth - 1)]
            return [k, expr(depth - 1), expr(depth - 1)]
        cmp = rng.choice(["==", "==", "==", "==", "<", "<=", ">", ">=", "!="])
        shape = rng.random()
        for _ in range(40):
            e = [cmp, expr(2), expr(rng.choice([0, 0, 1]))]
            if shape < 0.12:        # a chain of comparisons
                n = rng.choice([2, 2, 3])
                e = [" ".join(rng.choice(["==", "<", "<=", "!=", ">", ">="]) for _ in range(n))] + [expr(rng.choice([0, 0, 1])) for _ in range(n + 1)]
            elif shape < 0.2:
                e = [rng.choice("&&|"), e, [rng.choice(CMP), expr(1), expr(0)]]
            ls = sorted({ch for w in words(e) for ch in w if ch.isalpha()})
            if len(ls) > 5 or (small and len(ls) > 4):
                continue
            if e[0] == "==" and ls and rng.random() < 0.7:
                # make a true statement by construction: replace the right side by the value, partly in letters
                d = dict(zip(ls, rng.sample(range(10), len(ls))))
                try:
                    v = crypt_eval(e[1], d)
                except ZeroDivisionError:
                    continue
                if v < 0:
                    continue
                back = {str(x): ch for ch, x in d.items()}
                keep = rng.choice([1.0, 0.6, 0.0])
                e = [cmp, e[1], ["w", "".join(back[ch] if ch in back and rng.random() < keep else ch for ch in str(v))]]
            if not all(len(w) > 1 and w[0] == "0" and w.isdigit() for w in words(e)):
                break
        return {"k": "cryptarithm", "e": e, "zeros": rng.random() < 0.4, "style": rng.randint(0, 3)}

    @staticmethod
    def gen_big(rng):
        """Six to ten letters in a statement that is always true."""
        letters = rng.sample("ABCDEFGHIJKLMNOPQRSTUVWXYZ", rng.randint(6, 10))
        todo = list(letters)
        ws = []
        while todo:
            n = rng.randint(1, 5)
            w = todo[:n]
            del todo[:n]
            while rng.random() < 0.3:
                w.insert(rng.randint(0, len(w)), rng.choice(letters + list("0123456789")))
            ws.append(["w", "".join(w)])
        rng.shuffle(ws)

        def tree(xs):
            if len(xs) == 1:
                return xs[0]
            k = rng.randint(1, len(xs) - 1)
            return [rng.choice("++-*"), tree(xs[:k]), tree(xs[k:])]

        def flip(x):
            return x if x[0] == "w" else [x[0], flip(x[2]), flip(x[1])] if x[0] in "+*" else [x[0], flip(x[1]), flip(x[2])]
        a = tree(ws)
        r = rng.random()
        if r < 0.3:
            e = ["==", a, flip(a)]
        elif r < 0.5:
            e = [rng.choice([">=", "!="]), ["+", a, ["w", "9" * 40]], tree(ws)]
        elif r < 0.65:
            e = ["== <=", a, flip(a), ["+", flip(a), ["w", str(rng.randint(0, 20))]]]
        elif r < 0.85:
            k = rng.randint(1, 999)
            e = ["==", ["+", ["*", ["/", a, ["w", str(k)]], ["w", str(k)]], ["%", flip(a), ["w", str(k)]]], flip(a)]
        else:
            e = [rng.choice("&|"), ["==", a, flip(a)], ["<", ["-", a, a], ["w", "1"]]]
        return {"k": "cryptarithm", "e": e, "zeros": rng.random() < 0.4 or len({w[0] for w in words(e) if w[0].isalpha()}) > 9, "style": rng.randint(0, 3), "big": True}

    @staticmethod
    def check(spec):
        e = spec["e"]

        def ok(x):
            if not isinstance(x, list) or not x:
                raise InvalidCase("ast")
            if x[0] == "w":
                if len(x) != 2 or not isinstance(x[1], str) or not x[1].isalnum() or not x[1].isascii() or x[1].upper() != x[1]:
                    raise InvalidCase("word")
            elif x[0] == "u-":
                if len(x) != 2:
                    raise InvalidCase("ast")
                ok(x[1])
            elif x[0] in "+-*/%" and len(x) == 3:
                ok(x[1])
                ok(x[2])
            else:
                raise InvalidCase("ast")
        def stmt(x):
            if not isinstance(x, list) or not x or not isinstance(x[0], str) or not x[0].split():
                raise InvalidCase("statement")
            if x[0] in ("&", "|") and len(x) == 3:
                stmt(x[1])
                stmt(x[2])
            elif all(op in CMP for op in x[0].split()) and len(x) == len(x[0].split()) + 2:
                for y in x[1:]:
                    ok(y)
            else:
                raise InvalidCase("statement")
        if "zeros" not in spec or "style" not in spec:
            raise InvalidCase("spec")
        stmt(e)
        ls = Crypt.letters(spec)
        if spec.get("big"):
            if len(ls) > 10 or len({w[0] for w in words(e) if w[0].isalpha()}) > 9 and not spec["zeros"]:
                raise InvalidCase("letters")
            rng = seams.derive("crypt", json.dumps(e))
            for _ in range(300):
                try:
                    if not crypt_eval(e, dict(zip(ls, rng.sample(range(10), len(ls))))):
                        raise InvalidCase("not always true")
                except ZeroDivisionError:
                    raise InvalidCase("division by zero")
        elif len(ls) > 5:
            raise InvalidCase("letters")

    @staticmethod
    def letters(spec):
        return sorted({ch for w in words(spec["e"]) for ch in w if ch.isalpha()})

    @staticmethod
    def policies(spec):
        return POLICIES

    @staticmethod
    def build(spec, args):
        if spec["zeros"]:
            args = dict(args, avoid_leading_zeros=False)
        return A.crypt(render(spec["e"], spec["style"]), **args)

    @staticmethod
    def good(spec, d):
        if len(set(d.values())) != len(d):
            return "two letters share a digit"
        if not spec["zeros"]:
            for w in words(spec["e"]):
                if w[0].isalpha() and d[w[0]] == 0:
                    return "the word %s starts with zero" % w
        if not crypt_eval(spec["e"], d):
            return "the statement is false"
        return None

    @classmethod
    def truth(cls, spec):
        if spec.get("big"):
            return range(CAP + 1)
        ls = cls.letters(spec)
        first = {w[0] for w in words(spec["e"]) if w[0].isalpha()} if not spec["zeros"] else set()
        out = []
        for p in itertools.permutations(range(10), len(ls)):
            if 0 in p and ls[p.index(0)] in first:
                continue
            d = dict(zip(ls, p))
            try:
                if crypt_eval(spec["e"], d):
                    out.append(p)
            except ZeroDivisionError:
                raise InvalidCase("division by zero")
        return out

    @classmethod
    def canon(cls, spec, s, it):
        ls = cls.letters(spec)
        if not isinstance(s, dict) or sorted(s) != ls:
            raise Wrong("assigned letters are %r" % (s,))
        if any(type(x) is not int or not 0 <= x <= 9 for x in s.values()):
            raise Wrong("not digits: %r" % (s,))
        why = cls.good(spec, s)
        if why:
            raise Wrong("%s: %r" % (why, dict(sorted(s.items()))))
        return tuple(s[x] for x in ls)


# ------------------------------------------------------------------ queens and Einstein
def queens(n):
    out = []

    def go(acc):
        r = len(acc)
        if r == n:
            out.append(tuple(acc))
            return
        for c in range(n):
            if all(c != a and abs(c - a) != r - i for i, a in enumerate(acc)):
                go(acc + [c])
    go([])
    return out


class Queens:
    name = "queens"
    default_one = False

    @staticmethod
    def gen(rng, small):
        if small:
            return {"k": "queens", "n": rng.randint(0, 4)}
        return {"k": "queens", "n": rng.choice([0, 1, 2, 3, 4, 4, 5, 5, 6, 6]) if rng.random() < 0.985 else 7}

    @staticmethod
    def gen_big(rng):
        return {"k": "queens", "n": rng.randint(9, 14), "big": True}

    @staticmethod
    def policies(spec):
        if spec.get("big"):
            return []
        return POLICIES if spec["n"] <= 1 else ["ORDERED", "GROUPS", "MIN_BOUND", "MAX_CONSTRAINT"]

    @staticmethod
    def check(spec):
        if not 0 <= spec["n"] <= (16 if spec.get("big") else 8):
            raise InvalidCase("n")

    @staticmethod
    def build(spec, args):
        return A.queens(spec["n"], **args)

    @staticmethod
    def truth(spec):
        if spec.get("big"):
            return range(CAP + 1)
        return queens(spec["n"])

    @staticmethod
    def canon(spec, s, it):
        n = spec["n"]
        try:
            t = tuple(tuple(r) for r in s)
        except TypeError:
            raise Wrong("a board of type %s" % type(s).__name__)
        if len(t) != n or any(len(r) != n for r in t):
            raise Wrong("board of the wrong size")
        q = [(r, c) for r in range(n) for c in range(n) if t[r][c]]
        if len(q) != n:
            raise Wrong("%d queens" % len(q))
        for i, (a, b) in enumerate(q):
            for c, d in q[:i]:
                if a == c or b == d or abs(a - c) == abs(b - d):
                    raise Wrong("queens at %r and %r attack each other" % ((a, b), (c, d)))
        return tuple(c for _, c in q)


EINSTEIN = (
    ("Norwegian", "yellow", "water", "Dunhill", "cats"),
    ("Dane", "blue", "tea", "Blend", "a horse"),
    ("English", "red", "milk", "Pall Mall", "birds"),
    ("German", "green", "coffee", "Prince", "a zebra"),
    ("Swede", "white", "beer", "Blue Master", "a dog"),
)
ATTRS = ("owner", "color", "drink", "smoke", "animal")


class Einstein:
    name = "einstein"
    default_one = False

    @staticmethod
    def gen(rng, small):
        return {"k": "einstein"}

    @staticmethod
    def policies(spec):
        return ["ORDERED", "GROUPS", "MIN_BOUND", "MAX_BOUND", "MAX_CONSTRAINT"]

    @staticmethod
    def check(spec):
        pass

    @staticmethod
    def build(spec, args):
        return A.einstein(**args)

    @staticmethod
    def truth(spec):
        return [EINSTEIN]

    @staticmethod
    def canon(spec, s, it):
        try:
            t = tuple(tuple(s[i][a] for a in ATTRS) for i in range(1, 6))
            extra = len(s) != 5 or any(len(s[i]) != 5 for i in range(1, 6))
        except (KeyError, TypeError):
            raise Wrong("houses or attributes missing: %r" % (s,))
        if extra or t != EINSTEIN:
            raise Wrong("%r" % (t,))
        return t


# ------------------------------------------------------------------ knapsack
class Knapsack:
    name = "knapsack"
    default_one = False

    @staticmethod
    def gen(rng, small):
        n = rng.randint(1, 5 if small else 8) if rng.random() < 0.97 else 0
        dims = rng.choice([0, 1, 1, 1, 2, 2, 3])
        vals = rng.choice([[0], [1, 1, 2], list(range(-5, 12)), list(range(1, 30)), [5], [-3, -1], [10 ** 6, 10 ** 6 + 1, 3, 2 ** 40]])
        ws = rng.choice([[0, 1, 2, 3], [1, 2, 3, 4, 5, 6], [0], [2], [0, 5], [-2, 1, 3]])
        values = [rng.choice(vals) for _ in range(n)]
        weights = [[rng.choice(ws) for _ in range(dims)] for _ in range(n)]
        caps = [rng.choice([0, 1, 3, 5, 8, 13, 40, sum(w[d] for w in weights), -1 if rng.random() < 0.2 else 4]) for d in range(dims)]
        return {"k": "knapsack", "values": values, "weights": weights, "caps": caps, "iter": rng.choice(["list", "list", "gen", "tuple"])}

    @staticmethod
    def policies(spec):
        return POLICIES

    @staticmethod
    def check(spec):
        n = len(spec["values"])
        if not 0 <= n <= 10 or len(spec["weights"]) != n or any(len(w) != len(spec["caps"]) for w in spec["weights"]) or spec["iter"] not in ("list", "gen", "tuple"):
            raise InvalidCase("knapsack")

    @staticmethod
    def build(spec, args):
        w = [list(x) for x in spec["weights"]]
        if spec["iter"] == "gen":
            return A.knapsack(iter(list(spec["values"])), iter(list(spec["caps"])), (iter(x) for x in w), **args)
        if spec["iter"] == "tuple":
            return A.knapsack(tuple(spec["values"]), tuple(spec["caps"]), tuple(tuple(x) for x in w), **args)
        return A.knapsack(handed(list(spec["values"])), handed(list(spec["caps"])), handed(w), **args)

    @staticmethod
    def truth(spec):
        """The best value, or None when nothing fits."""
        best = None
        for sel in itertools.product((0, 1), repeat=len(spec["values"])):
            if all(sum(s * w[d] for s, w in zip(sel, spec["weights"])) <= c for d, c in enumerate(spec["caps"])):
                v = sum(s * x for s, x in zip(sel, spec["values"]))
                if best is None or v > best:
                    best = v
        return best


PROP_OF = {"sudoku": "C13", "nonogram": "C14", "graph": "C15", "map": "C15", "cryptarithm": "C16", "knapsack": "C17", "queens": "C18", "einstein": "C18"}
KINDS = {k.name: k for k in (Sudoku, Nonogram, Graph, Map, Crypt, Queens, Einstein, Knapsack)}


# ------------------------------------------------------------------ the world
class Pz:
    """One puzzle object under test."""

    def __init__(self, index, kind, spec, obj, args, solver_key):
        self.index, self.kind, self.spec, self.obj, self.args = index, kind, spec, obj, args
        self.solver_key = solver_key
        self.truth = None


class It:
    def __init__(self, key, pz):
        self.key, self.pz = key, pz
        self.gen = None
        self.done = None
        self.seen = []
        self.objects = []       # (delivered object, pristine copy) by delivery
        self.mutated = set()
        self.spent = 0.0
        self.overlapped = False
        self.memo = {}
        self.limit = self.timeout = None


class PuzzleWorld:
    def __init__(self, prop, case, accept):
        load()
        self.prop, self.case, self.accept = prop, case, accept
        self.log, self.counters = [], {}
        ck = case.get("clock", {})
        self.clock = seams.set_clock(seams.SimClock(**ck))
        self.q = ck.get("read_cost", 0.0)
        self.stalls = sum(v for v in (ck.get("slow") or {}).values())
        seams.EVAL.calls = seams.EVAL.fired = 0
        seams.EVAL.on_raise = None
        seams.EVAL.fail = {int(k): seams.EXC[v] for k, v in case.get("faults", {}).get("compile", {}).items()}
        self.injector = seams.Injector()
        self.pz, self.its, self.shared = [], {}, {}
        self.orders = {}
        self.switches, self.prev = 0, None
        random.seed(case.get("rseed", 1))

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def ev(self, *x):
        self.log.append(x)

    def fail(self, tag, msg, kind=None):
        full = tag if ":" in tag else PROP_OF[kind.name] + ":" + tag
        if self.accept is None or full[:3] in self.accept or full in self.accept:
            raise Violation(full, msg)
        self.count("other_tag:" + full)

    # ------------------------------------------------------------ building
    @staticmethod
    def real(x):
        return engine.S.INFINITY if x == "inf" else x

    def build(self, i, p):
        kind = KINDS[p["spec"]["k"]]
        kind.check(p["spec"])
        a = p["args"]
        args = {}
        for k in ("limit", "timeout"):
            if k in a:
                args[k] = self.real(a[k])
        if "policy" in a:
            args["var_selection_policy"] = engine.S.Policy[a["policy"]]
        if "compile" in a:
            args["compile_constraints"] = a["compile"]
        key = ("own", i)
        if p.get("share") is not None:
            # several puzzles through one solver object
            key = ("shared", p["share"])
            if key not in self.shared:
                sv = self.case["shared"][p["share"]]
                self.shared[key] = engine.S.Solver(engine.S.Policy[sv["policy"]], timeout=self.real(sv.get("timeout")), limit=self.real(sv.get("limit")),
                                                   compile_constraints=sv.get("compile", True))
            args = {"solver": self.shared[key]}
        if p.get("model"):
            args["model"] = engine.S.Model()
        del HANDED[:]
        try:
            obj = kind.build(p["spec"], args)
        except (InvalidCase, Hang, seams.StepBudget):
            raise
        except Exception as e:
            self.fail("build", "building the %s %s raised %s: %s" % (kind.name, json.dumps(p["spec"]), type(e).__name__, e), kind)
            raise InvalidCase("unbuildable")
        if p.get("reuse"):
            for x in HANDED:
                reuse(x)
            self.count("reused_inputs")
        pz = Pz(i, kind, p["spec"], obj, a, key)
        pz.truth = kind.truth(p["spec"])
        pz.policy = obj.solver.var_selection_policy.name
        if kind is not Knapsack:
            pz.complete = len(pz.truth) <= CAP
            pz.truth_set = set(pz.truth)
        return pz

    def run(self):
        for i, p in enumerate(self.case["puzzles"]):
            self.pz.append(self.build(i, p))
        for i, op in enumerate(self.case["ops"]):
            h = getattr(self, "op_" + op[0], None)
            if h is None:
                raise InvalidCase("op")
            h(*op[1:])
        for it in self.its.values():
            self.check_objects(it)

    def actor(self, a):
        if self.prev is not None and self.prev != a:
            self.switches += 1
        self.prev = a

    # ------------------------------------------------------------ searches
    def op_open(self, key, p):
        if key in self.its or p >= len(self.pz) or self.pz[p].kind is Knapsack:
            raise InvalidCase("open")
        self.its[key] = It(key, self.pz[p])

    def settings(self, pz):
        s = pz.obj.solver
        return s.limit, s.timeout

    def expected_limit(self, pz):
        """What the user asked for, not what the object says."""
        p = self.case["puzzles"][pz.index]
        a = dict(p["args"]) if p.get("share") is None else dict(self.case["shared"][p["share"]])
        a.update(self.overrides.get(pz.solver_key, {}) if hasattr(self, "overrides") else {})
        lim, to = a.get("limit"), a.get("timeout")
        if lim is None and pz.kind.default_one and p.get("share") is None and "limit" not in getattr(self, "overrides", {}).get(pz.solver_key, {}):
            lim = 1
        return (None if lim == "inf" else lim), (None if to == "inf" else to)

    def op_set(self, p, attr, value):
        if p >= len(self.pz) or attr not in ("limit", "timeout"):
            raise InvalidCase("set")
        pz = self.pz[p]
        setattr(pz.obj.solver, attr, self.real(value))
        if not hasattr(self, "overrides"):
            self.overrides = {}
        self.overrides.setdefault(pz.solver_key, {})[attr] = value

    def begin(self, it):
        it.limit, it.timeout = self.expected_limit(it.pz)
        for o in self.its.values():
            if o is not it and o.gen is not None and o.done is None and o.pz.solver_key == it.pz.solver_key:
                o.overlapped = it.overlapped = True
        it.gen = iter(it.pz.obj)
        self.count("searches")

    def step(self, it, line=None):
        """One request for a solution; returns False at the end of the search."""
        if it.gen is None:
            self.begin(it)
        self.actor(it.key)
        t0 = self.clock.t
        inj = self.injector
        if line is not None:
            inj.arm(line, KeyboardInterrupt)
            seams.MON.start(inj)
        try:
            try:
                kind, val = "ok", next(it.gen)
            except StopIteration:
                kind, val = "stop", None
            finally:
                seams.MON.pause()
        except (Hang, seams.StepBudget):
            raise
        except BaseException as e:
            kind, val = "exc", e
        it.spent += self.clock.t - t0
        fired = line is not None and inj.fired is not None
        what = it.pz.kind.name
        if fired:
            self.count("fault:interrupt")
            if kind != "exc":
                self.fail("swallowed", "the %s search swallowed a keyboard interrupt at %s and %s" % (what, inj.where, "ended" if kind == "stop" else "went on"), it.pz.kind)
            elif not isinstance(val, KeyboardInterrupt):
                self.fail("swallowed", "the %s search turned a keyboard interrupt at %s into %r" % (what, inj.where, val), it.pz.kind)
            it.done = "interrupted"
            self.ev("interrupted", it.key)
            return False
        if kind == "exc":
            self.fail("raised", "the %s search raised %s: %s" % (what, type(val).__name__, val), it.pz.kind)
            it.done = "error"
            return False
        if it.done is not None:
            if kind == "ok":
                self.fail("revived", "the %s search delivered again after its end" % what, it.pz.kind)
            return False
        if kind == "ok":
            self.delivered(it, val)
            return True
        it.done = "end"
        self.ended(it)
        return False

    def delivered(self, it, val):
        pz = it.pz
        try:
            c = pz.kind.canon(pz.spec, val, it)
        except Wrong as e:
            self.fail("wrong", "%s %s: delivered solution %d is wrong: %s" % (pz.kind.name, json.dumps(pz.spec), len(it.seen) + 1, e), pz.kind)
            c = None
        self.ev("sol", it.key, c)
        self.count("solutions")
        if c is not None and c in it.seen:
            self.fail("repeated", "%s %s: solution delivered twice: %r" % (pz.kind.name, json.dumps(pz.spec), c), pz.kind)
        if c is not None and pz.complete and c not in pz.truth_set:
            raise RuntimeError("reference solver of %s disagrees with its rules on %r %r" % (pz.kind.name, pz.spec, c))
        it.seen.append(c)
        it.objects.append((val, copy.deepcopy(val)))
        if it.limit is not None and len(it.seen) > it.limit:
            self.fail("limit", "%s: %d solutions delivered with limit %r" % (pz.kind.name, len(it.seen), it.limit), pz.kind)
        self.check_order(it)

    def check_order(self, it):
        pz = it.pz
        if pz.policy == "RANDOM":
            return
        # one puzzle, one policy: one sequence
        known = self.orders.setdefault((pz.index,), [])
        n = len(it.seen)
        if n > len(known):
            known.append(it.seen[-1])
        elif known[n - 1] != it.seen[-1]:
            self.fail("C02:order", "%s: solution %d was %r in one run and %r in another" % (pz.kind.name, n, known[n - 1], it.seen[-1]), pz.kind)

    def reason(self, it):
        st = it.pz.obj.get_stats()
        if st.count != len(it.seen):
            self.fail("count", "%s: %d solutions were delivered, %r reported" % (it.pz.kind.name, len(it.seen), st.count), it.pz.kind)
        return st.interrupt

    def ended(self, it):
        pz = it.pz
        n = len(it.seen)
        what = pz.kind.name
        missing = pz.complete and n < len(pz.truth)
        at_limit = it.limit is not None and n >= it.limit
        over = it.timeout is not None and it.spent > it.timeout
        if it.timeout is not None:
            bound = it.timeout + self.q * (16 + 6 * n) + self.stalls
            if it.spent > bound:
                self.fail("late", "%s: timeout %r, but the search went on for %r simulated seconds" % (what, it.timeout, it.spent), pz.kind)
        if it.overlapped:
            self.ev("end", it.key, n)
            if missing and not at_limit and not over:
                self.fail("missed", "%s %s: only %d of %d solutions delivered" % (what, json.dumps(pz.spec), n, len(pz.truth)), pz.kind)
            return
        why = self.reason(it)
        self.ev("end", it.key, n, why)
        self.count("end_" + str(why or "complete"))
        if why is None:
            if missing:
                self.fail("missed", "%s %s: the search reports no interruption but delivered %d of %d solutions" % (what, json.dumps(pz.spec), n, len(pz.truth)), pz.kind)
            if at_limit:
                self.fail("reason", "%s: cut by the limit %r, but no interruption is reported" % (what, it.limit), pz.kind)
        elif why == "limit":
            if not (it.limit is not None and n == it.limit):
                self.fail("reason", "%s: 'limit' reported after %d solutions with limit %r" % (what, n, it.limit), pz.kind)
        elif why == "timeout":
            if not over:
                self.fail("reason", "%s: 'timeout' reported with timeout %r after %r simulated seconds" % (what, it.timeout, it.spent), pz.kind)
        else:
            self.fail("reason", "%s: unknown reason %r" % (what, why), pz.kind)

    def get(self, key):
        it = self.its.get(key)
        if it is None:
            raise InvalidCase("key")
        return it

    def op_take(self, key, n):
        it = self.get(key)
        if it.done == "closed":
            return
        for _ in range(n):
            if not self.step(it):
                break

    def op_drain(self, key):
        it = self.get(key)
        if it.done is not None:
            return
        for _ in range(5000):
            if not self.step(it):
                return
        if it.pz.complete:
            self.fail("endless", "%s: more than 5000 solutions" % it.pz.kind.name, it.pz.kind)

    def op_int(self, key, line):
        it = self.get(key)
        if it.done is None:
            self.step(it, line)

    def op_close(self, key):
        it = self.get(key)
        if it.gen is None or it.done is not None:
            it.done = it.done or "closed"
            return
        self.actor(it.key)
        try:
            it.gen.close()
        except Exception as e:
            self.fail("close", "closing a %s search raised %r" % (it.pz.kind.name, e), it.pz.kind)
        it.done = "closed"
        self.count("fault:abandoned")
        self.ev("closed", key)
        if not it.overlapped:
            st = it.pz.obj.get_stats()
            if st.interrupt is not None and not (st.interrupt == "limit" and it.limit is not None and len(it.seen) >= it.limit):
                self.fail("reason", "%s: abandoned search reports %r" % (it.pz.kind.name, st.interrupt), it.pz.kind)

    def op_pause(self, dt):
        self.clock.advance(dt)
        self.count("fault:consumer_pause")

    def op_wall(self, d):
        self.clock.step_wall(d)

    def op_rebuild(self, p):
        """The same puzzle again, from scratch, while others are under way."""
        if p >= len(self.pz):
            raise InvalidCase("rebuild")
        spec = self.case["puzzles"][p]
        if spec.get("share") is None:
            old = self.pz[p]
            if any(it.pz is old and it.gen is not None and it.done is None for it in self.its.values()):
                return
            if hasattr(self, "overrides"):
                self.overrides.pop(old.solver_key, None)
            new = self.build(p, spec)
            self.pz[p] = new
            for it in self.its.values():
                if it.pz is old and it.gen is None:
                    it.pz = new

    def op_mut(self, key, i, how):
        """The consumer spoils a delivered solution."""
        it = self.get(key)
        if not it.objects:
            return
        i %= len(it.objects)
        it.mutated.add(i)
        self.count("fault:consumer_mutates")
        self.spoil(it.objects[i][0], how)

    @classmethod
    def spoil(cls, x, how):
        if isinstance(x, dict):
            for v in list(x.values()):
                cls.spoil(v, how)
            if how == "clear":
                x.clear()
            else:
                for k in list(x):
                    x[k] = 77
        elif isinstance(x, (list, tuple)):
            for v in x:
                cls.spoil(v, how)
            if isinstance(x, list):
                if how == "clear":
                    x.clear()
                else:
                    x[:] = [9] * (len(x) + 1)

    def check_objects(self, it):
        for i, (o, pristine) in enumerate(it.objects):
            if i not in it.mutated and o != pristine:
                self.fail("changed", "%s: solution %d changed after it was delivered" % (it.pz.kind.name, i + 1), it.pz.kind)

    # ------------------------------------------------------------ knapsack
    def op_call(self, p, line=None):
        if p >= len(self.pz) or self.pz[p].kind is not Knapsack:
            raise InvalidCase("call")
        pz = self.pz[p]
        self.actor(("call", p))
        limit, timeout = self.expected_limit(pz)
        for o in self.its.values():
            if o.gen is not None and o.done is None and o.pz.solver_key == pz.solver_key:
                o.overlapped = True     # nothing runs between the start and the end of this call
        t0 = self.clock.t
        inj = self.injector
        if line is not None:
            inj.arm(line, KeyboardInterrupt)
            seams.MON.start(inj)
        try:
            try:
                r, exc = pz.obj(), None
            finally:
                seams.MON.pause()
        except (Hang, seams.StepBudget):
            raise
        except BaseException as e:
            r, exc = None, e
        spent = self.clock.t - t0
        if line is not None and inj.fired is not None:
            self.count("fault:interrupt")
            self.ev("interrupted")
            if not isinstance(exc, KeyboardInterrupt):
                self.fail("swallowed", "a keyboard interrupt at %s during the optimisation gave %r" % (inj.where, exc if exc is not None else r), pz.kind)
            return
        if exc is not None:
            self.fail("raised", "the optimisation of %s raised %s: %s" % (json.dumps(pz.spec), type(exc).__name__, exc), pz.kind)
            return
        st = pz.obj.get_stats()
        self.ev("result", p, tuple(r.solution) if r.solution is not None else None, r.value, r.is_optimal, st.interrupt)
        self.count("searches")
        self.count("end_" + str(st.interrupt or "complete"))
        sp, best = pz.spec, pz.truth
        desc = json.dumps(sp)
        if r.solution is None:
            if r.is_optimal or r.value is not None or r.weights is not None:
                self.fail("wrong", "%s: no selection, yet %r" % (desc, r), pz.kind)
            if best is not None and st.interrupt is None:
                self.fail("missed", "%s: no selection returned and no interruption reported; value %d is possible" % (desc, best), pz.kind)
        else:
            self.count("solutions")
            sel = tuple(r.solution)
            if len(sel) != len(sp["values"]) or any(x not in (0, 1) for x in sel):
                self.fail("wrong", "%s: selection %r" % (desc, sel), pz.kind)
                return
            value = sum(v for v, x in zip(sp["values"], sel) if x)
            ws = tuple(sum(w[d] for w, x in zip(sp["weights"], sel) if x) for d in range(len(sp["caps"])))
            if any(w > c for w, c in zip(ws, sp["caps"])):
                self.fail("wrong", "%s: selection %r weighs %r" % (desc, sel, ws), pz.kind)
            if r.value != value or tuple(r.weights) != ws:
                self.fail("wrong", "%s: selection %r has value %d and weights %r, reported %r and %r" % (desc, sel, value, ws, r.value, r.weights), pz.kind)
            if r.is_optimal and value != best:
                self.fail("claim", "%s: claimed optimal with value %d, %d is possible" % (desc, value, best), pz.kind)
            if st.interrupt is None and not r.is_optimal:
                self.fail("claim", "%s: not interrupted, yet the result is not claimed optimal" % desc, pz.kind)
        if st.interrupt == "limit":
            if limit is None or st.count != limit:
                self.fail("reason", "'limit' reported after %r iterations with limit %r" % (st.count, limit), pz.kind)
        elif st.interrupt == "timeout":
            if timeout is None or spent <= timeout:
                self.fail("reason", "'timeout' reported with timeout %r after %r simulated seconds" % (timeout, spent), pz.kind)
        elif st.interrupt is not None:
            self.fail("reason", "unknown reason %r" % (st.interrupt,), pz.kind)
        elif limit is not None and st.count >= limit:
            self.fail("reason", "limit %r reached but not reported" % limit, pz.kind)
        if timeout is not None and spent > timeout + self.q * (16 + 6 * st.count) + self.stalls:
            self.fail("late", "timeout %r, but the optimisation went on for %r simulated seconds" % (timeout, spent), pz.kind)

    def result(self):
        for k, v in self.clock.fired.items():
            self.count("fault:" + k, v)
        if seams.EVAL.fired:
            self.count("fault:compile_failure", seams.EVAL.fired)
        return {"log": self.log, "counters": self.counters, "t": self.clock.t, "evals": 0, "switches": self.switches,
                "nontrivial": self.counters.get("solutions", 0) > 0 or "complete" in str(self.counters),
                "key": [p["spec"] for p in self.case["puzzles"]]}


# ------------------------------------------------------------------ generators
def settings(rng, kind, spec, clock):
    """Solver settings for one puzzle; slow policies only under a simulated timeout."""
    a = {}
    if rng.random() < 0.5 or not kind.policies(spec):
        ok = kind.policies(spec)
        a["policy"] = rng.choice(ok if ok and rng.random() < 0.85 else POLICIES)
        if a["policy"] not in ok:
            clock["read_cost"] = Q
            a["timeout"] = Q * rng.randint(0, 600)
    r = rng.random()
    if r < 0.3:
        a["limit"] = rng.choice([0, 1, 1, 2, 3, 5, 10, 100])
    elif r < 0.75 or (kind.default_one and r < 0.85):
        a["limit"] = "inf"
    elif r < 0.9:
        a["limit"] = None
    if "timeout" not in a:
        r = rng.random()
        if r < 0.3:
            clock["read_cost"] = Q
            a["timeout"] = Q * rng.randint(0, 10 ** rng.randint(1, 3))
        elif r < 0.4:
            a["timeout"] = rng.choice(["inf", None, 1e6, 0])
    if rng.random() < 0.3:
        a["compile"] = rng.random() < 0.5
    return a


def gen_case(rng, main, interrupts=True):
    kinds = [KINDS[main]]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        kinds.append(KINDS[main if rng.random() < 0.4 else rng.choice(["sudoku", "nonogram", "graph", "map", "cryptarithm", "queens", "knapsack", "graph"])])
    clock = {}
    puzzles = []
    for i, k in enumerate(kinds):
        big = i == 0 and hasattr(k, "gen_big") and rng.random() < (0.008 if k in (Nonogram, Queens) else 0.03)
        spec = k.gen_big(rng) if big else k.gen(rng, i > 0)
        puzzles.append({"spec": spec, "args": settings(rng, k, spec, clock)})
        if k.name in ("sudoku", "nonogram", "knapsack") and rng.random() < 0.1:
            puzzles[-1]["reuse"] = True
        if rng.random() < 0.05:
            puzzles[-1]["model"] = True
        if big:
            puzzles[0]["args"]["limit"] = rng.choice([1, 2, 3, 5, 12, 40])
    shared = []
    if len(puzzles) > 1 and not puzzles[0]["spec"].get("big") and rng.random() < 0.2:
        ok = set(POLICIES)
        for k, p in zip(kinds, puzzles):
            ok &= set(k.policies(p["spec"]))
        if ok:
            shared.append({"policy": rng.choice(sorted(ok)), "limit": rng.choice(["inf", 1, 3]), "compile": rng.random() < 0.7})
            for p in puzzles:
                p["share"] = 0
    ops, keys = [], []
    for j in range(rng.choice([1, 1, 2, 3])):
        p = 0 if j == 0 else rng.randrange(len(puzzles))
        if kinds[p] is Knapsack:
            ops.append(["call", p])
            continue
        keys.append("i%d" % j)
        ops.append(["open", keys[-1], p])
    body = []
    for _ in range(rng.randint(0, 10)):
        r = rng.random()
        if r < 0.4 and keys:
            body.append(["take", rng.choice(keys), rng.choice([1, 1, 1, 2, 4])])
        elif r < 0.5 and keys:
            body.append(["mut", rng.choice(keys), rng.randint(0, 9), rng.choice(["clear", "junk"])])
        elif r < 0.6:
            body.append(["pause", Q * rng.randint(1, 10 ** rng.randint(1, 5))])
        elif r < 0.67:
            body.append(["wall", rng.choice([-1e6, -3600.0, -1.0, 1.0, 3600.0, 1e9])])
        elif r < 0.75 and keys and rng.random() < 0.4:
            body.append(["close", rng.choice(keys)])
        elif r < 0.8:
            body.append(["rebuild", rng.randrange(len(puzzles))])
        elif r < 0.87 and interrupts and keys:
            body.append(["int", rng.choice(keys), rng.randint(1, 10 ** rng.randint(1, 4))])
        elif r < 0.92:
            body.append(["set", rng.randrange(len(puzzles)), "limit", rng.choice(["inf", 1, 2, 0, 4])])
        else:
            k = rng.randrange(len(puzzles))
            if kinds[k] is Knapsack:
                if interrupts and rng.random() < 0.3:
                    body.append(["call", k, rng.randint(1, 10 ** rng.randint(1, 4))])
                body.append(["call", k])
    if puzzles[0]["spec"].get("big"):
        body = [op for op in body if op[:2] != ["set", 0] or op[3] != "inf"]
    ops += body
    tail = list(keys)
    rng.shuffle(tail)
    ops += [["drain", k] for k in tail]
    if rng.random() < 0.5:
        p = rng.randrange(len(puzzles))
        if kinds[p] is Knapsack:
            ops.append(["call", p])
        else:
            ops += [["open", "again", p], ["drain", "again"]]
    if kinds[0] is Knapsack and rng.random() < 0.6:
        if interrupts and rng.random() < 0.3:
            ops.append(["call", 0, rng.randint(1, 10 ** rng.randint(1, 4))])
        ops.append(["call", 0])
    if clock.get("read_cost") and rng.random() < 0.2:
        clock["slow"] = {str(rng.randint(1, 200)): Q * rng.randint(1, 300) for _ in range(rng.randint(1, 2))}
    if rng.random() < 0.3:
        clock["jumps"] = {str(rng.randint(1, 60)): rng.choice([-1e7, -60.0, 60.0, 1e7]) for _ in range(rng.randint(1, 3))}
    case = {"puzzles": puzzles, "ops": ops, "clock": clock, "rseed": rng.randint(0, 999)}
    if shared:
        case["shared"] = shared
    if rng.random() < 0.08:
        case["faults"] = {"compile": {str(rng.randint(1, 30)): rng.choice(["MemoryError", "RecursionError", "ValueError"]) for _ in range(rng.randint(1, 3))}}
    return case


class PuzzleProp:
    id = None
    kinds = ()

    def gen(self, rng, tier):
        load()
        return gen_case(rng, rng.choice(self.kinds))

    def prepare(self, case, rng):
        # validity of the puzzles (e.g. no division by zero) is a matter of the reference alone
        for p in case["puzzles"]:
            k = KINDS[p["spec"]["k"]]
            k.check(p["spec"])
            t = k.truth(p["spec"])
            if k is Nonogram and not p["spec"].get("big") and len(t) * len(p["spec"]["rows"]) * len(p["spec"]["cols"]) > 6000:
                raise InvalidCase("several drains of it take too long")
        return case

    def run(self, case):
        w = PuzzleWorld(self.id, case, {self.id, "cra"})
        try:
            w.run()
        finally:
            seams.MON.stop()
        return w.result()


class C13(PuzzleProp):
    id = "C13"
    kinds = ("sudoku",)


class C14(PuzzleProp):
    id = "C14"
    kinds = ("nonogram",)


class C15(PuzzleProp):
    id = "C15"
    kinds = ("graph", "map")


class C16(PuzzleProp):
    id = "C16"
    kinds = ("cryptarithm",)


class C17(PuzzleProp):
    id = "C17"
    kinds = ("knapsack",)


class C18(PuzzleProp):
    id = "C18"
    kinds = ("queens", "queens", "queens", "einstein")

    def gen(self, rng, tier):
        if rng.random() < 1 / 2000:
            # the classic board, to its end
            return {"big": True, "puzzles": [{"spec": {"k": "queens", "n": 8}, "args": {}}], "ops": [["open", "i0", 0], ["take", "i0", 1], ["pause", 5.0], ["drain", "i0"]],
                    "clock": {}, "rseed": 1}
        case = super().gen(rng, tier)
        if rng.random() < 0.01:
            case["puzzles"][0] = {"spec": {"k": "queens", "n": 8}, "args": {"limit": rng.randint(1, 3)}}
            case.pop("shared", None)
            for x in case["puzzles"]:
                x.pop("share", None)
            case["ops"] = [op for op in case["ops"] if op[0] != "set"]
        return case
