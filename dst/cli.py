"""C19, C20: the command-line tool as a whole, run in-process with simulated files, output and clock."""
import ast
import builtins
import errno
import io
import json
import random
import re
import sys

from . import engine, puzzles, seams
from .engine import Hang, Violation
from .puzzles import COLORS, KINDS, It, Q, Wrong, runs
from .ref import InvalidCase

CMDS = {"sudoku": "sudoku", "nonogram": "nonogram", "graph": "graph_labeling", "map": "ascii_map_coloring", "cryptarithm": "cryptarithm",
        "queens": "queens", "einstein": "einstein", "knapsack": "knapsack"}
ERRNO = {"ENOENT": errno.ENOENT, "EACCES": errno.EACCES, "EIO": errno.EIO, "EISDIR": errno.EISDIR, "EMFILE": errno.EMFILE, "ENOSPC": errno.ENOSPC,
         "EPIPE": errno.EPIPE, "EBADF": errno.EBADF, "ENOMEM": errno.ENOMEM, "EDQUOT": errno.EDQUOT}
DEFAULTS = ("sudoku", "nonogram", "graph", "map", "cryptarithm", "knapsack")


# ------------------------------------------------------------------ simulated I/O
class SimIn(io.RawIOBase):
    """A file whose reads come in pieces and may fail at an offset."""

    def __init__(self, sim, data, fault):
        self.sim, self.data, self.pos, self.fault = sim, data, 0, fault
        self.rng = seams.derive("short", fault["short"]) if "short" in fault else None

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), len(self.data) - self.pos)
        if self.rng is not None and n > 1:
            m = self.rng.randint(1, min(n, 40))
            if m < n:
                self.sim.count("fault:short_read")
            n = m
        k = self.fault.get("read_at")
        if k is not None:
            if self.pos >= k:
                self.sim.count("fault:read_" + self.fault["read_err"])
                self.sim.fired = True
                if self.fault["read_err"] == "KeyboardInterrupt":
                    raise KeyboardInterrupt("injected in read")
                raise OSError(ERRNO[self.fault["read_err"]], "injected read error")
            n = min(n, k - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class SimOut(io.RawIOBase):
    """Standard output: short writes, failing writes, a disk that fills up, an interrupt during a write."""

    def __init__(self, sim, fault):
        self.sim, self.fault = sim, fault
        self.got = bytearray()
        self.writes = 0
        self.off = False
        self.rng = seams.derive("shortw", fault["short_write"]) if "short_write" in fault else None

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.off:
            return len(b)
        self.writes += 1
        f = self.fault
        stop = f.get("stop_text")       # an interrupt as soon as this is to be written
        if stop is not None and stop.encode() in bytes(self.got[-len(stop):]) + b:
            self.sim.fired = True
            self.sim.count("fault:write_KeyboardInterrupt")
            raise KeyboardInterrupt("injected in write")
        n = len(b)
        if self.rng is not None and n > 1:
            n = self.rng.randint(1, n)
            self.sim.count("fault:short_write")
        at = f.get("write_at")          # bytes accepted before the fault
        if at is not None and not (self.sim.fired and f.get("once")):
            room = at - len(self.got)
            if room <= 0:
                self.sim.fired = True
                self.sim.count("fault:write_" + f["write_err"])
                if f["write_err"] == "KeyboardInterrupt":
                    raise KeyboardInterrupt("injected in write")
                raise OSError(ERRNO[f["write_err"]], "injected write error")
            n = min(n, room)
        self.got += b[:n]
        if "mark" in f:
            f["mark"](self.got)
        return n


class Sim:
    """One execution of satisfy.tool.main()."""

    def __init__(self, world, argv, files, fault=None, line=None, stdin=None, line_cost=0.0):
        self.world, self.argv, self.files, self.fault = world, argv, files, fault or {}
        self.line, self.stdin, self.line_cost = line, stdin, line_cost
        self.fired = False
        self.opened = []

    def count(self, k):
        self.world.count(k)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        name = str(file)
        if not name.startswith("/sim/"):
            return seams.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if set(mode) & set("wax+"):
            raise PermissionError(errno.EROFS, "read-only", name)
        if "open" in self.fault:
            self.fired = True
            self.count("fault:open_" + self.fault["open"])
            raise OSError(ERRNO[self.fault["open"]], "injected open error", name)
        if name not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", name)
        raw = SimIn(self, self.files[name], self.fault)
        self.opened.append(name)
        if "b" in mode:
            return raw if buffering == 0 else io.BufferedReader(raw)
        return io.TextIOWrapper(io.BufferedReader(raw), encoding=encoding or "utf-8", errors=errors, newline=newline)

    def run(self):
        f = self.fault
        raw = SimOut(self, f)
        buf = io.BufferedWriter(raw, f.get("bufsize", 8192))
        out = io.TextIOWrapper(buf, encoding="utf-8", write_through=bool(f.get("unbuffered")), line_buffering=bool(f.get("linebuf")))
        err = io.StringIO()
        saved = sys.argv, sys.stdout, sys.stderr, sys.stdin, builtins.open, io.open
        sys.argv = ["satisfy"] + list(self.argv)
        sys.stdout, sys.stderr = out, err
        sys.stdin = io.TextIOWrapper(io.BufferedReader(SimIn(self, self.stdin or b"", f)), encoding="utf-8")
        builtins.open = io.open = self.open
        inj = None
        t0 = seams.CLOCK.t
        if self.line is not None:
            inj = seams.Injector()
            inj.arm(self.line, KeyboardInterrupt)
            seams.MON.start(inj)
        elif self.line_cost:
            clock, cost = seams.CLOCK, self.line_cost

            def hook(code, line):
                clock.t += cost
            seams.MON.start(hook)
        main = sys.modules["satisfy.tool"].main
        try:
            try:
                r = main()
                self.outcome = ("ok", r)
            finally:
                seams.MON.pause()
        except (Hang, seams.StepBudget, Violation):
            raise
        except SystemExit as e:
            self.outcome = ("exit", e.code)
        except BaseException as e:
            self.outcome = ("exc", e)
        finally:
            seams.MON.pause()
            sys.argv, sys.stdout, sys.stderr, sys.stdin, builtins.open, io.open = saved
        self.spent = seams.CLOCK.t - t0
        if inj is not None and inj.fired is not None:
            self.fired = True
            self.where = inj.where
            self.count("fault:interrupt")
        # what the interpreter does at exit
        self.flush_error = None
        try:
            out.flush()
        except BaseException as e:
            self.flush_error = e
        self.raw = bytes(raw.got)
        raw.off = True
        try:
            out.close()
        except BaseException:
            pass
        self.err = err.getvalue()
        return self

    @property
    def text(self):
        return self.raw.decode("utf-8", "replace")

    @property
    def failed(self):
        """Would the process have ended with an error?"""
        if self.outcome[0] == "exc":
            return True
        if self.outcome[0] == "exit" and self.outcome[1] not in (None, 0):
            return True
        return self.flush_error is not None

    def how(self):
        if self.outcome[0] == "ok" and self.flush_error is not None:
            return "failed flush: %r" % self.flush_error
        return "%s %r" % self.outcome


# ------------------------------------------------------------------ problems as files and arguments
def file_text(spec, pad=0):
    k = spec["k"]
    if k == "sudoku":
        d = spec["grid"]
    elif k == "nonogram":
        if spec.get("image") is not None:
            if not spec["image"] or image_clues(spec["image"]) != (spec["rows"], spec["cols"]):
                raise InvalidCase("another picture")
            return "\n".join(spec["image"])
        d = {"rows": spec["rows"], "columns": spec["cols"]}
    elif k == "graph":
        d = {"directed": spec["type"] == "DiGraph", "multigraph": spec["type"] == "MultiGraph", "graph": {},
             "nodes": [{"id": KINDS["graph"].node(spec, i)} for i in range(spec["n"])],
             "links": [{"source": KINDS["graph"].node(spec, a), "target": KINDS["graph"].node(spec, b)} for a, b in spec["edges"]]}
        if spec["type"] == "MultiGraph":
            seen = {}
            for e in d["links"]:
                p = tuple(sorted((str(e["source"]), str(e["target"]))))
                e["key"] = seen.setdefault(p, 0)
                seen[p] += 1
    elif k == "map":
        return "\n".join(spec["map"])
    elif k == "knapsack":
        d = {"values": spec["values"], "capacities": spec["caps"], "weights": spec["weights"]}
    else:
        raise InvalidCase("no file for " + k)
    if pad > 1000:
        # a file larger than the usual buffers
        s = json.dumps(d)
        k = s.index(",") + 1 if "," in s else 0
        return s[:k] + " " * (pad // 2) + s[k:] + "\n" * (pad // 2)
    return json.dumps(d, indent=pad if pad else None)


def image_clues(lines):
    w = max(len(x) for x in lines)
    pix = [[int(c < len(x) and x[c] not in " _") for c in range(w)] for x in lines]
    return [runs(r) for r in pix], [runs([pix[r][c] for r in range(len(lines))]) for c in range(w)]


def gen_spec(rng, kind):
    if kind == "nonogram" and rng.random() < 0.3:
        h, w = rng.randint(1, 4), rng.randint(1, 5)
        ink = rng.choice(["#", "#X", "1", "#."])
        lines = ["".join(rng.choice(ink) if rng.random() < 0.55 else rng.choice(" _") for _ in range(w)) for _ in range(h)]
        if rng.random() < 0.4:
            lines = [x.rstrip() for x in lines]
        if rng.random() < 0.03:         # a picture larger than the usual buffers, but with a single solution that is easy to find
            h = rng.randint(2, 4)
            lines = [rng.choice(ink[0]) * (rng.choice([4300, 9000, 10400]) // h)] * h
        spec = {"k": "nonogram", "image": lines}
        spec["rows"], spec["cols"] = image_clues(lines)
        return spec
    spec = KINDS[kind].gen(rng, True)
    if kind == "graph":
        spec["labels"] = [str(x) for x in spec["labels"]] or ["only"]
        spec["nodes"] = rng.choice(["int", "str"])
    if kind == "map":
        spec["as"] = "str"
        if rng.random() < 0.08:         # a file larger than the usual buffers
            i = rng.randrange(max(1, len(spec["map"]) - 1))
            spec["map"][i] += " " * rng.choice([3000, 5000, 9000])
    return spec


def argv_of(case):
    """Command line and files of a case."""
    spec, o = case["spec"], case["opts"]
    kind = spec["k"]
    argv, files, stdin = [CMDS[kind]], {}, None
    if kind == "cryptarithm" and case["give"] != "default":
        argv.append(puzzles.render(spec["e"], spec["style"]))
        if argv[-1].startswith("-"):
            argv[-1] = "0+" + argv[-1] if False else argv[-1]
            raise InvalidCase("an argument that looks like an option")
    if case["give"] in ("file", "stdin") and kind not in ("cryptarithm", "queens", "einstein"):
        text = case.get("raw_text")
        data = (text if text is not None else file_text(spec, o.get("pad", 0))).encode("utf-8")
        opt = ("-I", "--input-image") if spec.get("image") is not None else ("-i", "--input-file")
        if case["give"] == "stdin":
            argv += [opt[o.get("long", 0)], "-"]
            stdin = data
        else:
            files["/sim/problem"] = data
            argv += [opt[1] + "=/sim/problem"] if o.get("long") else [opt[0], "/sim/problem"]
    if kind == "graph":
        argv += ["--labels" if o.get("long") else "-L"] + [str(x) for x in spec["labels"]]
    if kind == "map":
        argv += ["--colors" if o.get("long") else "-C"] + list(spec["colors"])
    if kind == "queens":
        argv += ["--board-size=%d" % spec["n"]] if o.get("long") else ["-b", str(spec["n"])]
    if kind == "cryptarithm":
        z = o.get("z")
        if z is not None:
            argv += ["-z"] if z == "" else ["-z", z]
    for name, short, long in (("limit", "-l", "--limit"), ("timeout", "-t", "--timeout")):
        v = o.get(name)
        if v is None:
            continue
        if v == "inf":
            argv.append(long if o.get("long") else short)
        elif o.get("long"):
            argv.append("%s=%r" % (long, v))
        else:
            argv += [short, repr(v)]
    if o.get("show"):
        argv.append("-s")
    return argv, files, stdin


# ------------------------------------------------------------------ reading the report
CLOSE = re.compile(r"^Found (?:(unique) solution|(all) (\d+) solutions|(\d+) (partial) solutions?) in (-?\d+\.\d+) seconds(?: \[(\w+) reached\])?$")
CLOSE_OPT = re.compile(r"^Found (optimal|sub-optimal|no) solution in (-?\d+\.\d+) seconds after (\d+) solve iterations?(?: \[(\w+) reached\])?$")
TOKEN = re.compile(r"\x1b\[\d+m.\x1b\[0m|.", re.S)
HOUSE = re.compile(r"^(\[\*\]|   ) The (.+), who lives in the (first|second|third|fourth|fifth) (\S+) house, drinks (\S+), smokes (.+) and has (.+)\.$")


class Report:
    pass


def parse(spec, text):
    """The solutions and the closing line of the tool's output."""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    r = Report()
    r.solutions = []
    if not lines:
        raise Wrong("no output")
    m = CLOSE.match(lines[-1])
    if not m:
        raise Wrong("the last line is %r" % lines[-1])
    r.claim = m.group(1) or m.group(2) or m.group(5)
    r.count = 1 if m.group(1) else int(m.group(3) or m.group(4))
    r.elapsed, r.reason = float(m.group(6)), m.group(7)
    if (r.claim == "partial") != (r.reason is not None):
        raise Wrong("closing line %r" % lines[-1])
    body = lines[:-1]
    heads = [i for i, x in enumerate(body) if re.match(r"^=== solution -?\d+ ===$", x)]
    for j, i in enumerate(heads):
        if body[i] != "=== solution %d ===" % (j + 1):
            raise Wrong("solution %d is headed %r" % (j + 1, body[i]))
        end = heads[j + 1] if j + 1 < len(heads) else len(body)
        r.solutions.append(body[i + 1:end])
    for x in lines[:-1]:
        if x.startswith("Found ") and CLOSE.match(x):
            raise Wrong("more than one closing line")
    return r


def read_solution(spec, lines, it):
    """Printed lines of one solution -> canonical solution, checked against the puzzle's rules."""
    k = spec["k"]
    if k == "sudoku":
        rows = [re.findall(r"\d", x) for x in lines if x.startswith("│")]
        if any("." in x for x in lines):
            raise Wrong("a cell is left open")
        return KINDS[k].canon(spec, [[int(v) for v in r] for r in rows], it)
    if k == "nonogram":
        n = len(spec["rows"])
        part = (lines + [""] * n)[:n]
        if any(set(x) - {"#", " "} for x in part):
            raise Wrong("picture %r" % part)
        w = len(spec["cols"])
        return KINDS[k].canon(spec, [[int(ch == "#") for ch in x.ljust(w)] for x in part], it)
    if k == "graph":
        try:
            d = ast.literal_eval(lines[0])
        except (ValueError, SyntaxError, IndexError):
            raise Wrong("labelling %r" % lines[:1])
        return KINDS[k].canon(spec, d, it)
    if k == "map":
        n = len(spec["map"])
        part = (lines + [""] * n)[:n]
        return KINDS[k].read(spec, [TOKEN.findall(x) for x in part], it.memo)
    if k == "cryptarithm":
        d = {}
        rest = None
        for x in lines:
            m = re.match(r"^([A-Z]) = (\d)$", x)
            if m:
                d[m.group(1)] = int(m.group(2))
            elif x.startswith("==> "):
                rest = x[4:]
        c = KINDS[k].canon(spec, d, it)
        src = puzzles.render(spec["e"], spec["style"]).upper()
        want = "".join(str(d.get(ch, ch)) for ch in src)
        if rest is None or rest.replace(" ", "") != want.replace(" ", ""):
            raise Wrong("the digits %r are shown as %r" % (d, rest))
        return c
    if k == "queens":
        rows = [[int("♛" in c) for c in x.strip("│").split("│")] for x in lines if x.startswith("│")]
        if spec["n"] == 0:
            rows = []
        return KINDS[k].canon(spec, rows, it)
    if k == "einstein":
        ord = {"first": 1, "second": 2, "third": 3, "fourth": 4, "fifth": 5}
        d = {}
        for x in lines:
            m = HOUSE.match(x)
            if m:
                d[ord[m.group(3)]] = dict(zip(("owner", "color", "drink", "smoke", "animal"), (m.group(2), m.group(4), m.group(5), m.group(6), m.group(7))))
                if (m.group(1) == "[*]") != (m.group(7) == "a zebra"):
                    raise Wrong("marked line %r" % x)
        return KINDS[k].canon(spec, d, it)
    raise InvalidCase(k)


class CliWorld:
    def __init__(self, prop, case):
        puzzles.load()
        self.prop, self.case = prop, case
        self.log, self.counters = [], {}
        self.ck = case.get("clock", {})
        seams.EVAL.calls = seams.EVAL.fired = 0
        seams.EVAL.on_raise = None
        seams.EVAL.fail = {}
        self.t = 0.0

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def fail(self, tag, msg):
        raise Violation(self.prop + ":" + tag, msg)

    def tool(self, argv, files, stdin, **kw):
        random.seed(1)
        clock = seams.set_clock(seams.SimClock(**self.ck))
        s = Sim(self, argv, files, stdin=stdin, **kw).run()
        self.t += clock.t
        for k, v in clock.fired.items():
            self.count("fault:" + k, v)
        self.count("tool_runs")
        return s

    # ------------------------------------------------------------ C19
    def truth(self, spec):
        return KINDS[spec["k"]].truth(spec)

    def check_report(self, s, case, argv):
        """One complete, fault-free run against what is true of the problem."""
        spec, o = case["spec"], case["opts"]
        desc = "%s with %s" % (" ".join(argv), json.dumps(spec) if case["give"] != "default" else "the default problem")
        if s.outcome != ("ok", None) or s.flush_error is not None:
            self.fail("failed", "%s ended with %s: %s" % (desc, s.how(), s.err[-200:]))
        limit = None if o.get("limit") in (None, "inf") else o["limit"]
        timeout = None if o.get("timeout") in (None, "inf") else o["timeout"]
        kind = KINDS[spec["k"]]
        if kind.default_one and o.get("limit") is None:
            limit = 1
        q = self.ck.get("read_cost", 0.0)
        stalls = sum(v for v in (self.ck.get("slow") or {}).values())
        if spec["k"] == "knapsack":
            self.check_knapsack(s, spec, desc, limit, timeout, q, stalls)
            return
        try:
            r = parse(spec, s.text)
            it = It("cli", None)
            sols, seen = [], set()
            for i, part in enumerate(r.solutions):
                try:
                    c = read_solution(spec, part, it)
                except Wrong as e:
                    raise Wrong("printed solution %d: %s" % (i + 1, e))
                if c in seen:
                    raise Wrong("solution %d is a repetition" % (i + 1))
                seen.add(c)
                sols.append(c)
        except Wrong as e:
            self.fail("wrong", "%s: %s" % (desc, e))
        n = len(sols)
        self.count("solutions", n)
        truth = self.truth(spec)
        complete = len(truth) <= puzzles.CAP
        self.log.append((tuple(sols[:50]), r.claim, r.count, r.reason))
        self.count("close_" + r.claim + ("_" + r.reason if r.reason else ""))
        if r.count != n:
            self.fail("count", "%s: %d solutions printed, the closing line says %d" % (desc, n, r.count))
        if limit is not None and n > limit:
            self.fail("limit", "%s: %d solutions printed" % (desc, n))
        if r.reason is None:
            if complete and n != len(truth):
                self.fail("claim", "%s: the closing line says %r after %d of %d solutions" % (desc, r.claim, n, len(truth)))
            if limit is not None and n >= limit:
                self.fail("reason", "%s: cut by the limit, the closing line says %r" % (desc, r.claim))
        elif r.reason == "limit":
            if limit is None or n != limit:
                self.fail("reason", "%s: 'limit reached' after %d solutions" % (desc, n))
        elif r.reason == "timeout":
            if timeout is None or s.spent <= timeout:
                self.fail("reason", "%s: 'timeout reached' after %r simulated seconds" % (desc, s.spent))
        else:
            self.fail("reason", "%s: reason %r" % (desc, r.reason))
        if not case.get("line_cost"):
            if timeout is not None and s.spent > timeout + q * (24 + 6 * n) + stalls:
                self.fail("late", "%s: ran for %r simulated seconds" % (desc, s.spent))
        self.check_elapsed(s, desc, r.elapsed, n, q, stalls, timeout if r.reason == "timeout" else None)
        return r

    def check_knapsack(self, s, spec, desc, limit, timeout, q, stalls):
        lines = s.text.rstrip("\n").split("\n")
        m = CLOSE_OPT.match(lines[-1])
        if not m:
            self.fail("wrong", "%s: the last line is %r" % (desc, lines[-1]))
        kind, elapsed, iters, reason = m.group(1), float(m.group(2)), int(m.group(3)), m.group(4)
        try:
            at = lines.index("=== optimal_solution ===")
        except ValueError:
            self.fail("wrong", "%s: no solution section" % desc)
        sec = lines[at + 1:-1]
        claim = "is_optimal: True" in sec
        if not claim and "is_optimal: False" not in sec:
            self.fail("wrong", "%s: section %r" % (desc, sec))
        best = self.truth(spec)
        self.log.append((tuple(sec), kind, iters, reason))
        self.count("close_%s%s" % (kind, "_" + reason if reason else ""))
        if "no solution found" in sec:
            if claim or kind == "optimal":
                self.fail("claim", "%s: no solution, yet %r" % (desc, lines[-1]))
            if best is not None and reason is None:
                self.fail("claim", "%s: no solution reported and no reason; value %d is possible" % (desc, best))
            if iters != 0:
                self.fail("count", "%s: no solution after %d iterations" % (desc, iters))
        else:
            self.count("solutions")
            get = {}
            for x in sec:
                a, _, b = x.partition(": ")
                get[a] = b
            try:
                marks = ast.literal_eval(get["solution"]).split()
                value, weights = int(get["value"]), tuple(ast.literal_eval(get["weights"]))
                sel = [{"X": 1, "_": 0}[x] for x in marks]
            except (KeyError, ValueError, SyntaxError, TypeError, AttributeError) as e:
                self.fail("wrong", "%s: section %r" % (desc, sec))
            tv = sum(v for v, x in zip(spec["values"], sel) if x)
            tw = tuple(sum(w[d] for w, x in zip(spec["weights"], sel) if x) for d in range(len(spec["caps"])))
            if len(sel) != len(spec["values"]) or tv != value or tw != weights:
                self.fail("wrong", "%s: section %r; the selected items have value %r and weights %r" % (desc, sec, tv, tw))
            if any(w > c for w, c in zip(tw, spec["caps"])):
                self.fail("wrong", "%s: the selection does not fit: %r" % (desc, sec))
            if kind == "no":
                self.fail("wrong", "%s: a selection is printed, the closing line is %r" % (desc, lines[-1]))
            if claim != (kind == "optimal"):
                self.fail("claim", "%s: 'is_optimal: %s', yet the closing line is %r" % (desc, claim, lines[-1]))
            if claim and value != best:
                self.fail("claim", "%s: claimed optimal with value %d; %d is possible" % (desc, value, best))
            if not claim and reason is None:
                self.fail("reason", "%s: not optimal and no reason given: %r" % (desc, lines[-1]))
            if iters < 1 or (limit is not None and iters > limit):
                self.fail("count", "%s: %d iterations with limit %r" % (desc, iters, limit))
        if reason == "limit" and (limit is None or iters != limit):
            self.fail("reason", "%s: 'limit reached' after %d iterations" % (desc, iters))
        if reason == "timeout" and (timeout is None or s.spent <= timeout):
            self.fail("reason", "%s: 'timeout reached' after %r simulated seconds" % (desc, s.spent))
        if reason not in (None, "limit", "timeout"):
            self.fail("reason", "%s: reason %r" % (desc, reason))
        if claim and reason is not None:
            self.fail("reason", "%s: optimal, yet %r" % (desc, lines[-1]))
        if not self.case.get("line_cost") and timeout is not None and s.spent > timeout + q * (24 + 6 * iters) + stalls:
            self.fail("late", "%s: ran for %r simulated seconds" % (desc, s.spent))
        self.check_elapsed(s, desc, elapsed, iters, q, stalls, timeout if reason == "timeout" else None)

    def check_elapsed(self, s, desc, elapsed, n, q, stalls, cut):
        """The reported time is the time of the search: all that passed but what setting up and printing took."""
        if elapsed < 0 or elapsed > s.spent + 0.001:
            self.fail("elapsed", "%s: reports %r seconds, took %r" % (desc, elapsed, s.spent))
        if not self.case.get("line_cost") and elapsed < s.spent - q * (24 + 6 * n) - stalls - 0.001:
            self.fail("elapsed", "%s: reports %r seconds, the search took about %r" % (desc, elapsed, s.spent))
        if cut is not None and elapsed < cut - 2 * q - 0.001 - (50 + cut / 10 if self.case.get("line_cost") else 0):
            self.fail("elapsed", "%s: cut by the timeout after a search of %r seconds" % (desc, elapsed))

    def default_text(self, kind):
        t = sys.modules["satisfy.tool"]
        return {"sudoku": t.default_sudoku_source, "nonogram": t.default_nonogram_source, "graph": t.default_graph_labeling_source,
                "map": t.default_ascii_map_coloring_source, "cryptarithm": t.default_cryptarithm_source, "knapsack": t.default_knapsack_source}[kind]()

    def run_c19(self):
        case = self.case
        if case["give"] == "default":
            return self.run_default() if case["spec"]["k"] != "queens" else self.run_default_board()
        KINDS[case["spec"]["k"]].check(case["spec"])
        argv, files, stdin = argv_of(case)
        s = self.tool(argv, files, stdin, line_cost=case.get("line_cost", 0.0))
        r = self.check_report(s, case, argv)
        if case.get("line_cost") and r is not None:
            self.timed(case, argv, files, stdin, s, r)

    def timed(self, case, argv, files, stdin, s, r):
        """The same problem again under a timeout well below the time it needs."""
        if case["opts"].get("limit") is not None or case["opts"].get("timeout") is not None:
            raise InvalidCase("timed")
        for frac in case["fractions"]:
            t = r.elapsed * frac / 2
            o = dict(case["opts"], timeout=t)
            c2 = dict(case, opts=o)
            argv2, _, _ = argv_of(c2)
            s2 = self.tool(argv2, files, stdin, line_cost=case["line_cost"])
            r2 = self.check_report(s2, c2, argv2)
            if r2.reason != "timeout":
                self.fail("unbounded", "%s: the search takes %r simulated seconds; with a timeout of %r it was not cut: %r after %r seconds" % (
                    " ".join(argv), r.elapsed, t, r2.claim, r2.elapsed))
            if r2.solutions != r.solutions[:len(r2.solutions)] and [x for x in r2.solutions[:-1]] != r.solutions[:max(0, len(r2.solutions) - 1)]:
                self.fail("wrong", "%s: under a timeout other solutions are printed" % " ".join(argv))

    def run_default_board(self):
        """The board of the default size."""
        case = self.case
        if case["opts"].get("limit") not in (1, 2):
            raise InvalidCase("limit")
        opts = [str(case["opts"]["limit"])]
        s = self.tool(["queens", "-l"] + opts, {}, None)
        n = sum(x.startswith("│") for x in s.text.split("\n")) // case["opts"]["limit"]
        if s.outcome != ("ok", None) or s.flush_error is not None or not 1 <= n <= 9:
            self.fail("default", "queens -l %s ended with %s and shows boards of %d rows" % (opts[0], s.how(), n))
            return
        c2 = {"spec": {"k": "queens", "n": n}, "opts": case["opts"], "give": "file", "clock": case["clock"]}
        self.check_report(s, c2, ["queens", "-l"] + opts)
        s2 = self.tool(["queens", "-b", str(n), "-l"] + opts, {}, None)
        if s2.text != s.text:
            self.fail("default", "queens -l %s prints %r, with -b %d it prints %r" % (opts[0], s.text[-300:], n, s2.text[-300:]))

    def run_default(self):
        """The built-in problem, by default and given explicitly."""
        case = self.case
        kind = case["spec"]["k"]
        argv, _, _ = argv_of(case)
        text = self.default_text(kind)
        if not isinstance(text, str):
            self.fail("default", "the built-in %s problem is %r" % (kind, text))
            return
        s = self.tool(argv, {}, None)
        if kind == "cryptarithm":
            argv2, files = [argv[0], text] + argv[1:], {}
        else:
            opt = "-i"
            argv2, files = [argv[0], opt, "/sim/problem"] + argv[1:], {"/sim/problem": text.encode()}
        s2 = self.tool(argv2, files, None)
        for x, a in ((s, argv), (s2, argv2)):
            if x.outcome != ("ok", None) or x.flush_error is not None:
                self.fail("failed", "%s ended with %s: %s" % (" ".join(a), x.how(), x.err[-200:]))
        t1, t2 = s.text, s2.text
        if kind == "cryptarithm":
            t2 = t2.partition("\n")[2]
        if not t1.endswith(t2):
            self.fail("default", "%s: the built-in problem gives %r, the same problem given explicitly %r" % (" ".join(argv), t1[-300:], t2[-300:]))
        self.log.append((s.text[-200:],))
        self.count("solutions")

    # ------------------------------------------------------------ C20
    def run_c20(self):
        case = self.case
        KINDS[case["spec"]["k"]].check(case["spec"])
        argv, files, stdin = argv_of(case)
        fault = dict(case["fault"])
        quiet = {k: v for k, v in fault.items() if k in ("bufsize", "unbuffered", "linebuf")}
        good = self.tool(argv, files, stdin, fault=quiet)
        if good.failed or good.outcome != ("ok", None):
            raise InvalidCase("the fault-free run fails: " + good.how())    # C19 judges that
        self.log.append(good.text[-60:])
        line = None
        if "line" in fault:
            line = fault["line"]
        cut = None
        if "cut" in fault:
            name = next(iter(files), None)
            data = files[name] if name else stdin
            if data is None:
                raise InvalidCase("nothing to cut")
            k = fault["cut"] % len(data) if data else 0
            cut = data[:k]
            if case["spec"]["k"] == "map" or case["spec"].get("image") is not None:
                raise InvalidCase("every prefix is a problem")
            try:
                json.loads(cut)
                raise InvalidCase("still valid")
            except ValueError:
                pass
            self.count("fault:truncated")
            if name:
                files = {name: cut}
            else:
                stdin = cut
        if "garbled" in fault:
            name = next(iter(files), None)
            data = files[name] if name else stdin
            if not data:
                raise InvalidCase("nothing to garble")
            k = fault["garbled"] % len(data)
            data = data[:k] + bytes([fault["byte"]]) + data[k + (fault["garbled"] // len(data)) % 2:]
            try:
                data.decode("utf-8")
                raise InvalidCase("still text")
            except UnicodeDecodeError:
                pass
            self.count("fault:undecodable_byte")
            if name:
                files = {name: data}
            else:
                stdin = data
        bad = self.tool(argv, files, stdin, fault=fault, line=line)
        desc = "%s with fault %s" % (" ".join(argv), json.dumps(fault))
        self.log.append((sorted(fault.items()), bad.failed, len(bad.raw)))
        harmless = set(fault) <= {"short", "short_write", "bufsize", "unbuffered", "linebuf"}
        if harmless:
            if bad.failed or bad.raw != good.raw:
                self.fail("short", "%s: %s, output %r instead of %r" % (desc, bad.how(), bad.text[-200:], good.text[-200:]))
            self.count("harmless")
            return
        if cut is not None or "garbled" in fault or "open" in fault or ("read_at" in fault and bad.fired):
            if not bad.failed:
                self.fail("accepted", "%s: the tool ended as if nothing had happened: %r" % (desc, bad.text[-200:]))
            if "=== solution 1 ===" in bad.text or "=== optimal_solution ===" in bad.text or re.search(r"^Found ", bad.text, re.M):
                self.fail("accepted", "%s: the tool failed (%s) but reported %r" % (desc, bad.how(), bad.text[-200:]))
            self.count("refused")
            return
        if "read_at" in fault and fault["read_at"] < len(next(iter(files.values()), stdin) or b""):
            # the file cannot be read in full
            if not bad.failed:
                self.fail("accepted", "%s: the file cannot be read beyond byte %d, yet the tool ended as if nothing had happened: %r" % (desc, fault["read_at"], bad.text[-200:]))
        if not bad.fired:
            # the fault lies beyond the end of the run
            if bad.failed or bad.raw != good.raw:
                self.fail("unfired", "%s: the fault did not strike, yet %s, output %r instead of %r" % (desc, bad.how(), bad.text[-200:], good.text[-200:]))
            self.count("beyond_end")
            return
        if not bad.failed:
            self.fail("swallowed", "%s: the tool ended as if nothing had happened%s" % (desc, " (struck at %s)" % bad.where if line is not None else ""))
        if line is not None or fault.get("write_err") == "KeyboardInterrupt":
            if bad.outcome[0] == "ok":
                if bad.flush_error is None or not isinstance(bad.flush_error, KeyboardInterrupt):
                    self.fail("swallowed", "%s: the interrupt was lost: %s" % (desc, bad.how()))
        if not good.raw.startswith(bad.raw):
            self.fail("prefix", "%s: output %r is no prefix of %r" % (desc, bad.text[-200:], good.text[-200:]))
        self.count("failed_as_it_should")

    def result(self):
        return {"log": self.log, "counters": self.counters, "t": self.t, "evals": 0, "switches": 0, "nontrivial": self.counters.get("tool_runs", 0) > 0,
                "key": [self.case["spec"], self.case["opts"], self.case["give"], self.case.get("fault")]}


# ------------------------------------------------------------------ properties
def gen_opts(rng, kind, clock, timeouts=True):
    o = {}
    r = rng.random()
    if r < 0.35:
        o["limit"] = rng.choice([0, 1, 1, 2, 3, 7, 1000])
    elif r < 0.7:
        o["limit"] = "inf"
    r = rng.random()
    if r < 0.4 and timeouts:
        clock["read_cost"] = Q
        o["timeout"] = Q * rng.randint(0, 10 ** rng.randint(1, 3))
    elif r < 0.5:
        o["timeout"] = rng.choice(["inf", 1e6])
    if rng.random() < 0.3:
        o["show"] = True
    if rng.random() < 0.4:
        o["long"] = 1
    if rng.random() < 0.2:
        o["pad"] = rng.choice([1, 60, 400, 5000, 10000, 140000])
    return o


ALL = ["sudoku", "nonogram", "graph", "map", "cryptarithm", "queens", "knapsack"]


class Cli:
    def prepare(self, case, rng):
        if case["give"] != "default":
            k = KINDS[case["spec"]["k"]]
            k.check(case["spec"])
            k.truth(case["spec"])
            argv_of(case)
        return case


class C19(Cli):
    id = "C19"

    def gen(self, rng, tier):
        puzzles.load()
        r = rng.random()
        clock = {}
        if rng.random() < 0.2:
            clock["jumps"] = {str(rng.randint(1, 30)): rng.choice([-1e7, -60.0, 60.0, 1e7]) for _ in range(rng.randint(1, 3))}
        if r < 0.08:
            kind = rng.choice(DEFAULTS)
            o = gen_opts(rng, kind, clock, False)
            o.pop("timeout", None)
            if kind in ("map", "graph", "nonogram"):
                o["limit"] = rng.choice([1, 2, 5])
                o.setdefault("show", False)
            if kind == "cryptarithm":
                clock["read_cost"] = Q
                o["timeout"] = Q * rng.randint(0, 60)
            if kind in ("map", "nonogram") and rng.random() < 0.5 or kind == "sudoku" and o.get("limit") not in (None, 0, 1):
                clock["read_cost"] = Q
                o["timeout"] = Q * rng.randint(0, 300)
            spec = {"k": kind}
            if kind == "graph":
                spec["labels"] = ["a", "b", "c", "d"][:rng.randint(2, 4)]
            if kind == "map":
                spec["colors"] = rng.sample(COLORS, 4)
            return {"spec": spec, "give": "default", "opts": o, "clock": clock}
        if r < 0.083:
            return {"spec": {"k": "queens"}, "give": "default", "opts": {"limit": rng.choice([1, 1, 2])}, "clock": {}}
        if r < 0.2:
            # time charged per executed line: is the search really bounded?
            kind = rng.choice(["queens", "einstein", "queens", "sudoku", "graph", "cryptarithm", "nonogram", "map"])
            if kind == "queens":
                spec = {"k": "queens", "n": rng.choice([4, 5])}
            elif kind == "einstein":
                spec = {"k": "einstein"}
            elif kind == "graph":
                spec = {"k": "graph", "type": "Graph", "n": 4, "edges": [[0, 1], [1, 2]], "labels": ["r", "g", "b"], "nodes": "str"}
            elif kind == "map":
                spec = {"k": "map", "map": ["abcd", "e fg"], "colors": rng.sample(COLORS, 4), "as": "str"}
            elif kind == "cryptarithm":
                spec = {"k": "cryptarithm", "e": ["==", ["+", ["w", "A"], ["w", "B"]], ["w", "C"]], "zeros": False, "style": 0}
            elif kind == "nonogram":
                spec = {"k": "nonogram", "rows": [[1], [1], [1], [1]], "cols": [[1], [1], [1], [1]]}
            else:
                g = puzzles.full_grid(rng)
                for k in rng.sample(range(81), 40):
                    g[k // 9][k % 9] = 0
                spec = {"k": "sudoku", "grid": g}
            o = {}
            return {"spec": spec, "give": "file", "opts": o, "clock": clock, "line_cost": 1.0, "fractions": [rng.choice([0.0, 0.05, 0.3, 0.6, 1.0]) for _ in range(rng.randint(1, 2))]}
        if r > 0.992:
            # a long output
            n = rng.randint(6, 8)
            spec = {"k": "graph", "type": rng.choice(["Graph", "DiGraph"]), "n": n, "edges": [[0, 1]][:rng.randint(0, 1)], "labels": ["r", "g", "b"][:3 if n < 8 else 2],
                    "nodes": "str"}
            o = {"limit": rng.choice(["inf", 500, 1001, 1200, 1700, 2187])}
            if o["limit"] == "inf":
                o["limit"] = rng.choice([None, "inf"])
            return {"spec": spec, "give": "file", "opts": o, "clock": clock}
        kind = rng.choice(ALL)
        if rng.random() < 0.04:
            kind = "einstein"
        spec = gen_spec(rng, kind)
        o = gen_opts(rng, kind, clock)
        if kind == "cryptarithm":
            o["z"] = rng.choice(["off", "0", "false"]) if spec["zeros"] else rng.choice([None, "", "on", "1", "true", "On"])
        give = "stdin" if rng.random() < 0.1 else "file"
        case = {"spec": spec, "give": give, "opts": o, "clock": clock}
        if clock.get("read_cost") and rng.random() < 0.2:
            clock["slow"] = {str(rng.randint(1, 100)): Q * rng.randint(1, 300)}
        if clock.get("read_cost") and rng.random() < 0.2:
            # minutes and hours
            scale = rng.choice([64, 1024, 4096])
            clock["read_cost"] *= scale
            if isinstance(o.get("timeout"), float):
                o["timeout"] *= scale
            for k in clock.get("slow", ()):
                clock["slow"][k] *= scale
        return case

    def run(self, case):
        w = CliWorld(self.id, case)
        try:
            w.run_c19()
        finally:
            seams.MON.stop()
        return w.result()


class C20(Cli):
    id = "C20"

    def gen(self, rng, tier):
        puzzles.load()
        clock = {}
        r = rng.random()
        needs_file = r < 0.5
        kind = rng.choice(["sudoku", "nonogram", "graph", "map", "knapsack"] if needs_file else ALL)
        spec = gen_spec(rng, kind)
        o = gen_opts(rng, kind, clock, rng.random() < 0.2)
        if kind == "cryptarithm":
            o["z"] = "off" if spec["zeros"] else None
        give = "stdin" if rng.random() < 0.15 else "file"
        case = {"spec": spec, "give": give, "opts": o, "clock": clock}
        f = {}
        size = 400
        if needs_file:
            try:
                size = len(file_text(spec, o.get("pad", 0)).encode())
            except InvalidCase:
                pass
            r = rng.random()
            if r < 0.12:
                if give == "stdin":
                    case["give"] = "file"
                f["open"] = rng.choice(["ENOENT", "EACCES", "EIO", "EISDIR", "EMFILE", "ENOMEM"])
            elif r < 0.2:
                f["garbled"] = rng.randint(0, 2 * size)
                f["byte"] = rng.choice([0xff, 0xfe, 0x80, 0xc3, 0xe2])
                if rng.random() < 0.3:
                    f["short"] = rng.randint(0, 99)
            elif r < 0.45:
                f["read_at"] = rng.choice([0, size, rng.randint(0, size)]) if size < 8192 or rng.random() < 0.3 else rng.randint(8192, size)
                f["read_err"] = rng.choice(["EIO", "EIO", "EISDIR", "EBADF", "KeyboardInterrupt"])
                if rng.random() < 0.3:
                    f["short"] = rng.randint(0, 99)
            elif r < 0.8 and kind != "map" and spec.get("image") is None:
                f["cut"] = rng.choice([0, size - 1, rng.randint(0, max(0, size - 1)), rng.randint(0, max(0, size - 1))])
                if rng.random() < 0.3:
                    f["short"] = rng.randint(0, 99)
            else:
                f["short"] = rng.randint(0, 999)
        else:
            r = rng.random()
            f = rng.choice([{}, {"unbuffered": True, "bufsize": 1}, {"linebuf": True}, {"bufsize": rng.randint(1, 300)}])
            f = dict(f)
            if r < 0.5:
                f["write_at"] = int(10 ** rng.uniform(0, 3.6)) - 1
                f["write_err"] = rng.choice(["ENOSPC", "EPIPE", "EIO", "EBADF", "EDQUOT", "KeyboardInterrupt"])
                if rng.random() < 0.3:
                    f["once"] = True
                if rng.random() < 0.3:
                    f["short_write"] = rng.randint(0, 99)
            elif r < 0.6:
                f["short_write"] = rng.randint(0, 999)
            else:
                f["line"] = int(10 ** rng.uniform(0, 4.3))
        case["fault"] = f
        return case

    def run(self, case):
        w = CliWorld(self.id, case)
        try:
            w.run_c20()
        finally:
            seams.MON.stop()
        return w.result()
