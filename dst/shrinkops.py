"""Smaller variants of a JSON case, for minimisation."""
import json

OPS = {"add", "sub", "mul", "div", "mod", "pow", "eq", "ne", "lt", "le", "gt", "ge", "and", "or", "neg", "abs", "not", "sum", "prod"}


def paths(x, prefix=()):
    """All positions in a JSON value, outermost first."""
    yield prefix, x
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from paths(y, prefix + (i,))
    elif isinstance(x, dict):
        for k in x:
            yield from paths(x[k], prefix + (k,))


def get_at(x, p):
    for k in p:
        x = x[k]
    return x


def set_at(x, p, v):
    if not p:
        return v
    x = json.loads(json.dumps(x))
    y = x
    for k in p[:-1]:
        y = y[k]
    y[p[-1]] = v
    return x


def is_expr(x):
    return isinstance(x, list) and x and isinstance(x[0], str) and x[0] in OPS


def candidates(case):
    """Smaller variants of a case, boldest first."""
    nodes = list(paths(case))
    for p, x in nodes:
        if isinstance(x, list) and len(x) > 1 and not is_expr(x):
            n = len(x)
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    y = x[:i] + x[i + size:]
                    if y != x:
                        yield set_at(case, p, y)
                size //= 2
        elif isinstance(x, list) and len(x) == 1:
            yield set_at(case, p, [])
        elif isinstance(x, dict) and p:
            for k in list(x):
                y = dict(x)
                del y[k]
                yield set_at(case, p, y)
    for p, x in nodes:
        if is_expr(x):
            for y in x[1:]:
                yield set_at(case, p, y)
            yield set_at(case, p, ["c", 0])
            yield set_at(case, p, ["c", 1])
            if x[0] in ("sum", "prod") and len(x) > 2:
                for i in range(1, len(x)):
                    yield set_at(case, p, x[:i] + x[i + 1:])
    for p, x in nodes:
        if isinstance(x, bool):
            if x:
                yield set_at(case, p, False)
        elif isinstance(x, int) and x not in (0, 1):
            for y in dict.fromkeys((0, 1, x // 2, x - 1)):
                if abs(y) < abs(x):
                    yield set_at(case, p, y)
        elif isinstance(x, float) and x not in (0.0, 1.0):
            for y in (0.0, 1.0):
                yield set_at(case, p, y)
        elif isinstance(x, str) and len(x) > 1 and "\n" in x:
            lines = x.split("\n")
            for i in range(len(lines)):
                yield set_at(case, p, "\n".join(lines[:i] + lines[i + 1:]))
