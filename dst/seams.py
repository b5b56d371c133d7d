"""The seams the simulator owns: clocks, randomness, the line-level scheduler/injector, eval, files.

install() must run before the first import of satisfy, so that even `from time import x` in the
code under test binds the simulated functions.  Nothing in /repo is changed.
"""
import builtins
import datetime as _dt
import gc
import hashlib
import logging
import os
import random
import sys
import time as _time
import types

REPO_SRC = os.environ.get("DST_SRC", "/repo/src")     # DST_SRC: development only (trying planted bugs in a scratch copy)

real_time = _time.time
real_monotonic = _time.monotonic
real_perf_counter = _time.perf_counter
real_open = builtins.open
real_eval = builtins.eval


def derive(*parts):
    """A PRNG that is a pure function of its arguments."""
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]


class SimClock:
    """True time `t` advances only when the simulation says so.

    monotonic/perf_counter read true time (plus an origin), process_time half of it; time.time reads the wall
    clock, which the fault plan may step, skew or freeze.
    """
    MONO0 = 4096.0
    PERF0 = 512.0
    WALL0 = 1500000000.0

    def __init__(self, read_cost=0.0, jumps=None, skew=0.0, freeze=None, slow=None):
        self.t = 0.0
        self.wall_off = 0.0
        self.read_cost = read_cost
        self.skew = skew                        # wall seconds gained per true second
        self.jumps = {int(k): v for k, v in (jumps or {}).items()}  # clock-read index -> wall step
        self.slow = {int(k): v for k, v in (slow or {}).items()}    # clock-read index -> true time lost there (a stalled node)
        self.freeze = freeze                    # [from_read, to_read): wall clock shows a frozen value
        self.reads = 0
        self.fired = {}
        self.frozen_at = None

    def count(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def advance(self, dt):
        self.t += dt

    def step_wall(self, delta):
        self.wall_off += delta
        self.count("wall_step_back" if delta < 0 else "wall_step_forward")

    def _read(self):
        self.reads += 1
        if self.read_cost:
            self.t += self.read_cost
        d = self.slow.get(self.reads)
        if d is not None:
            self.t += d
            self.count("stall")
        d = self.jumps.get(self.reads)
        if d is not None:
            self.step_wall(d)

    def wall(self):
        self._read()
        w = self.WALL0 + self.t * (1.0 + self.skew) + self.wall_off
        if self.freeze and self.freeze[0] <= self.reads < self.freeze[1]:
            if self.frozen_at is None:
                self.frozen_at = w
                self.count("wall_freeze")
            return self.frozen_at
        return w

    def mono(self):
        self._read()
        return self.MONO0 + self.t

    def perf(self):
        self._read()
        return self.PERF0 + self.t

    def cpu(self):
        # processor time: searching partly waits, so it runs slower than true time
        self._read()
        return self.t * 0.5


CLOCK = SimClock()


def set_clock(clock):
    global CLOCK
    CLOCK = clock
    return clock


def _ns(f):
    return lambda: int(f() * 1e9)


_installed = False


def install():
    """Patch the process.  Idempotent."""
    global _installed
    if _installed:
        return
    _installed = True
    if "satisfy" in sys.modules:
        raise RuntimeError("seams must be installed before satisfy is imported")
    sys.dont_write_bytecode = True
    wall = lambda: CLOCK.wall()
    mono = lambda: CLOCK.mono()
    perf = lambda: CLOCK.perf()
    cpu = lambda: CLOCK.cpu()
    _time.time, _time.time_ns = wall, _ns(wall)
    _time.monotonic, _time.monotonic_ns = mono, _ns(mono)
    _time.perf_counter, _time.perf_counter_ns = perf, _ns(perf)
    _time.process_time, _time.process_time_ns = cpu, _ns(cpu)
    _time.thread_time, _time.thread_time_ns = cpu, _ns(cpu)

    def gettime(which):
        return wall() if which == _time.CLOCK_REALTIME else mono()
    _time.clock_gettime = gettime
    _time.clock_gettime_ns = lambda which: int(gettime(which) * 1e9)
    _time.sleep = lambda dt: CLOCK.advance(max(0.0, dt))

    class SimDateTime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(wall(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(wall(), _dt.timezone.utc).replace(tzinfo=None)
    _dt.datetime = SimDateTime

    builtins.eval = _sim_eval
    sys.path.insert(0, REPO_SRC)
    os.environ["FORCE_COLOR"] = "1"
    os.environ.pop("NO_COLOR", None)
    log = logging.getLogger("satisfy")
    log.addHandler(logging.NullHandler())
    log.propagate = False


def import_satisfy():
    install()
    import importlib
    import pkgutil
    import satisfy
    if not satisfy.__file__.startswith(REPO_SRC + "/"):
        raise RuntimeError("satisfy imported from " + satisfy.__file__)
    for m in pkgutil.walk_packages(satisfy.__path__, "satisfy."):
        if not m.name.endswith("__main__"):
            importlib.import_module(m.name)
    MON.setup()
    # generators abandoned in reference cycles would otherwise be finalised at arbitrary instants
    gc.disable()
    return satisfy


# ---------------------------------------------------------------- eval (the run-time compiler)
class EvalPlan:
    def __init__(self):
        self.calls = 0
        self.fail = {}          # call index -> exception class
        self.fired = 0
        self.on_raise = None    # told the exception about to be raised


EVAL = EvalPlan()


def _sim_eval(source, globals=None, locals=None):
    frame = sys._getframe(1)
    if globals is None:
        globals = frame.f_globals
        if locals is None:
            locals = frame.f_locals
    if str(frame.f_globals.get("__name__", "")).startswith("satisfy.expression"):
        EVAL.calls += 1
        exc = EVAL.fail.get(EVAL.calls)
        if exc is not None:
            EVAL.fired += 1
            e = exc("injected: compiler failure")
            if EVAL.on_raise is not None:
                EVAL.on_raise(e)
            raise e
    if locals is None:
        return real_eval(source, globals)
    return real_eval(source, globals, locals)


# ---------------------------------------------------------------- line events inside satisfy
class Monitor:
    """Calls a hook before every executed source line of satisfy (sys.monitoring)."""
    TOOL = 3

    def __init__(self):
        self.codes = []
        self.hook = None
        self.budget = None      # Budget: counts every line, across hooks
        self.on = False

    def setup(self):
        if self.codes:
            return
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "dst")
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.register_callback(self.TOOL, mon.events.INSTRUCTION, self._line)
        seen = set()

        def walk(code):
            if code in seen:
                return
            seen.add(code)
            self.codes.append(code)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c)

        def member(v):
            if isinstance(v, types.FunctionType):
                walk(v.__code__)
            elif isinstance(v, (staticmethod, classmethod)):
                member(v.__func__)
            elif isinstance(v, property):
                for f in (v.fget, v.fset, v.fdel):
                    if f:
                        member(f)
        for name in sorted(sys.modules):
            if name == "satisfy" or name.startswith("satisfy."):
                mod = sys.modules[name]
                for v in list(vars(mod).values()):
                    if isinstance(v, types.FunctionType):
                        if v.__code__.co_filename.startswith(REPO_SRC):
                            walk(v.__code__)
                    elif isinstance(v, type) and v.__module__ == name:
                        for w in list(vars(v).values()):
                            member(w)

    def _line(self, code, line):
        b = self.budget
        if b is not None:
            b.n += 1
            if b.n > b.limit:
                raise StepBudget("more than %d lines executed" % b.limit)
        h = self.hook
        if h is not None:
            return h(code, line)

    def start(self, hook=None, grain="line"):
        self.hook = hook
        if self.on != grain:
            mon = sys.monitoring
            ev = mon.events.LINE if grain == "line" else mon.events.INSTRUCTION
            for c in self.codes:
                mon.set_local_events(self.TOOL, c, ev)
            self.on = grain

    def pause(self):
        self.hook = None

    def stop(self):
        self.hook = None
        if self.on and self.budget is None:
            mon = sys.monitoring
            for c in self.codes:
                mon.set_local_events(self.TOOL, c, 0)
            self.on = False


MON = Monitor()


class StepBudget(BaseException):
    """Too many executed lines: the operation makes no progress."""


class Injector:
    """Raises `exc` at the n-th executed line after arming; counts lines otherwise."""

    def __init__(self):
        self.n = 0
        self.at = None
        self.exc = None
        self.fired = None

    def arm(self, at, exc):
        self.n, self.at, self.exc, self.fired = 0, at, exc, None

    def __call__(self, code, line):
        self.n += 1
        if self.n == self.at:
            self.fired = self.exc("injected at line event %d" % self.n)
            self.where = "%s:%d" % (code.co_qualname, line)
            raise self.fired


class Budget:
    def __init__(self, limit):
        self.n = 0
        self.limit = limit


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RecursionError": RecursionError,
    "ValueError": ValueError,
    "OSError": OSError,
    "StopIteration": StopIteration,
    "ZeroDivisionError": ZeroDivisionError,
    "KeyError": KeyError,
    "TypeError": TypeError,
    "SystemExit": SystemExit,
}


class ProbeError(Exception):
    """Raised by the simulator's own constraints."""


class ProbeAbort(BaseException):
    """As ProbeError, outside the Exception hierarchy."""


EXC["ProbeError"] = ProbeError
EXC["ProbeAbort"] = ProbeAbort
