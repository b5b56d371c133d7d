"""Writes dst/details.json, known_findings.json and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SESS = ("Each case (one seed) is a random model or models, solvers, and a random schedule of events "
        "(open, next, take, drain, close, throw, mutate a delivered solution, dwell, set attribute, edit, clock step ...) "
        "executed by the single-threaded simulator against the real library; the oracle is brute force over the product of the domains. ")
PUZ = ("Each case is one to three random puzzle instances opened, advanced, paused, cut, mutated, closed and rebuilt in a seeded interleaving, "
       "with simulated clock (every read may cost time), stalls, wall-clock steps, failing compilation and KeyboardInterrupt at executed lines; "
       "the oracle is an independent solver/checker written for this puzzle. ")
CLI = ("Each case is a run of satisfy.tool.main() with generated arguments and problem files, inside the process, with simulated argv, files, stdout and clock; "
       "the oracle parses the whole output and judges it against the independent reference solvers. ")
REAL_S = "all of satisfy (model, solver, constraint, expression, objective, utils), unmodified, imported from /repo/src"
REAL_P = "all of satisfy incl. the puzzle modules and satisfy.tool solvers, unmodified, imported from /repo/src"
REAL_C = "the whole command-line tool satisfy.tool.main with all its demo modules and the library below, unmodified; termcolor and argparse are the real ones"
SIM_S = "all clocks (time.*, datetime.now, sleep), state of the global random generator, PYTHONHASHSEED, the consumers' schedule, evaluation cost, the run-time compiler's failures (eval), the instants at which exceptions strike (sys.monitoring line events)"
SIM_T = SIM_S + "; for the threaded cases the thread scheduler (real threads, one runnable at a time, switched at line or bytecode granularity by the seeded scheduler)"
SIM_C = "argv, open()/files, stdin, stdout, all clocks (a chosen amount of time per executed line, stalls, wall steps), I/O faults and interrupts"
BASE = ["Python 3.12 interpreter, its generators and its dict order are trusted",
        "the reference (dst/ref.py, dst/puzzles.py) is trusted; it shares no code with satisfy",
        "instances are small enough for the reference to enumerate (see DESIGN.md for sizes)"]

D = {
    "C01": (SESS + "Non-trivial: at least one solution delivered and more than two events.", REAL_S, SIM_S),
    "C02": (SESS + "30 % of the cases are puzzles. Every case runs in three processes with different PYTHONHASHSEED and the event logs (delivered sequences) must be equal; ordered policies are also compared with the lexicographic reference. Non-trivial: a solution was delivered.", REAL_P, SIM_S),
    "C03": (SESS + "Limits (0, below, at, above the total, infinite) given at construction, by attribute and per run. Non-trivial: some run was cut by its limit.", REAL_S, SIM_S),
    "C04": (SESS + "Every evaluation costs simulated time, chosen evaluations stall, consumers dwell; timeouts are placed throughout the run. Non-trivial: some run was cut by its timeout.", REAL_S, SIM_S),
    "C05": (SESS + "The administrator steps, skews and freezes the wall clock at reads, evaluations and pauses. Non-trivial: a wall-clock fault fired during evaluations.", REAL_S, SIM_S),
    "C06": (SESS + "get_stats() is compared with the simulator's own accounting at every pause and after every ending. Non-trivial: evaluations took place and a solution was delivered.", REAL_S, SIM_S),
    "C07": (SESS + "Optimisations for one to three objectives under limits, timeouts, interleaved runs. Non-trivial: more than one improvement or optimum.", REAL_S, SIM_S),
    "C08": (SESS + "Interleaved searches and optimisations, each compared with the same search run alone in a fresh world; a share of the cases runs real threads preempted at seeded lines. Non-trivial: at least three switches between overlapping searches (or two preemptions).", REAL_S, SIM_T),
    "C09": (SESS + "A dry run counts executed lines and evaluations; then exceptions of twelve kinds are injected at seeded lines, evaluations and compilations of building, searching and optimising, followed by recovery runs. Non-trivial: at least one fault fired.", REAL_S, SIM_S),
    "C10": ("Half the cases compare one random expression under interpretation, compilation, recompilation, failed compilation and reference evaluation over histories of parameter values; half are histories of searches with compilation toggled and parameters changed. " + SESS + "Non-trivial: evaluations or solutions of an expression with variables; distinct also by expression.", REAL_S, SIM_S),
    "C11": (SESS + "Accepted and rejected edits between, before and during searches and optimisations; the model is compared with its state after the last edit before each edit and at the end. Non-trivial: an edit and a solution happened.", REAL_S, SIM_S),
    "C12": (SESS + "A history of runs of all kinds and endings, then final runs compared with the same runs on fresh objects. Non-trivial: more than one run and solution.", REAL_S, SIM_S),
    "C13": (PUZ + "Non-trivial: a grid delivered or a search completed.", REAL_P, SIM_S),
    "C14": (PUZ + "Non-trivial: a picture delivered or a search completed.", REAL_P, SIM_S),
    "C15": (PUZ + "Non-trivial: a colouring delivered or a search completed.", REAL_P, SIM_S),
    "C16": (PUZ + "Non-trivial: an assignment delivered or a search completed.", REAL_P, SIM_S),
    "C17": (PUZ + "Non-trivial: a selection delivered or an optimisation completed.", REAL_P, SIM_S),
    "C18": (PUZ + "Non-trivial: a board delivered or a search completed.", REAL_P, SIM_S),
    "C19": (CLI + "Non-trivial: at least one tool run was judged.", REAL_C, SIM_C),
    "C20": (CLI + "A fault-free run is recorded, then runs with open/read/write failures, truncations, short reads and writes, and interrupts at executed lines are compared with it. Non-trivial: at least one tool run was judged.", REAL_C, SIM_C),
    "C21": ("Each case is a model with 18 to 60 variables (10^8 to 10^40 assignments) built so that the cost of the wanted solutions is known: either without dead ends, or with the wanted solutions first in the policy's order and a desert behind them; "
            "or a bundled puzzle (graph of up to 70 nodes, empty sudoku, map of up to 32 regions), also through the command-line tool with a limit. A seeded schedule opens, takes, drains to limit or timeout, pauses, closes, drops, interrupts; "
            "every request must stay within a bound (8 times what a plain depth-first search needs) on constraint evaluations and executed lines, and the interpreter's memory blocks must not grow with solutions taken and forgotten. Non-trivial: a solution was delivered and more than two events.", REAL_P, SIM_S),
}
NOTE = {
    "C01": "Seeded search over models, policies, schedules and shuffles; brute-force oracle.",
    "C02": "Same cases in three processes with different hash seeds plus lexicographic oracle.",
    "C03": "Seeded search over limits and histories; prefix oracle against the unlimited enumeration.",
    "C04": "Seeded placement of expiry instants on a simulated clock; prefix, promptness and honesty oracle.",
    "C05": "Seeded wall-clock faults; true time is known to the simulator.",
    "C06": "Exact (dyadic) simulated time, so statistics are compared for equality.",
    "C07": "Brute-force optimum; strict improvement and honest claims checked under limits and timeouts.",
    "C08": "Solution-granular interleavings, plus real threads switched at seeded lines; oracle is the same search alone.",
    "C09": "Faults at seeded executed lines found by a dry run; recovery runs compared with brute force.",
    "C10": "Differential across compiled, interpreted, recompiled and reference evaluation over histories.",
    "C11": "Seeded edit/search histories; model compared with a reference model after each edit.",
    "C12": "Histories compared with fresh objects.",
    "C13": "Independent sudoku solver.", "C14": "Independent nonogram enumeration.", "C15": "Independent colouring enumeration and flood fill.",
    "C16": "Independent cryptarithm evaluator.", "C17": "Exhaustive subset oracle.", "C18": "Independent backtracking counts and riddle solver.",
    "C19": "Whole output parsed and judged against reference solvers; limits and timeouts on a simulated clock.",
    "C21": "Work counted in evaluations and executed lines over spaces that cannot be exhausted; delivered items are checked for validity only.",
    "C20": "Fault-injecting file system and output stream; prefix oracle against the fault-free run.",
}
NA = {
    "N01": "pure function of its argument (no concurrency, time, I/O during the computation, or multi-party behaviour): nothing for a simulator to schedule or fail; the simulation does cross clue files through the tool (C19, C20) but cannot decide this property by schedules or faults",
    "N02": "pure structural comparison of two in-memory trees: no scheduling, time, I/O or randomness for the property to depend on",
    "N03": "construction of two constants at import: no scheduling, time, I/O or randomness for the property to depend on",
    "N04": "argument validation is a pure function of the arguments: no scheduling, time, I/O or randomness for the property to depend on (rejected model edits, which do interact with open searches, are covered by C11)",
}
FIXED = [
    ("C10", "cea87ef", "compiled source lost parentheses and used display forms of operators: compiled constraints differed from interpreted ones"),
    ("C10", "6d09736", "an expression that could not be compiled failed with TypeError in the search; the bare except also swallowed KeyboardInterrupt (C09)"),
    ("C10", "0c2685e", "variables named sum, prod or abs, and names Python normalises, broke the compiled function"),
    ("C10", "99d5b7e", "guarded constraints raised ZeroDivisionError when interpreted but not when compiled"),
    ("C10", "8d4b328", "10 / x raised TypeError (also C16: cryptarithms such as '100 / AB == C')"),
    ("C10", "7249d10", "a run with compilation off used the function compiled by an earlier run, with the parameter values of that time"),
    ("C11", "f86c043", "Model.set_solvable had no effect"),
    ("C11", "d9e4ddc", "constraints on parameters alone were decided once when added (C10) or ignored as additional constraints"),
    ("C07", "eff2768", "optimisation delivered non-improving solutions after better ones and claimed wrong optima"),
    ("C06", "e0954f5", "the time since the last solution was missing from the statistics of exhausted and timed-out runs"),
    ("C05", "c950f0b", "search time was measured with the wall clock"),
    ("C03", "36de1b5", "limit=0 delivered a solution; INFINITY as a one-run limit or timeout (C04) raised TypeError"),
    ("C01", "13fc8a5", "a model without variables delivered no solution (also C13: complete grids, C14: empty clues)"),
    ("C13", "ad63c74", "contradictory givens gave invalid grids"),
    ("C16", "848a943", "avoid_leading_zeros=False had no effect"),
    ("C02", "85a48b7", "the order of cryptarithm solutions changed with the hash seed"),
    ("C16", "6686f01", "'/' between literal numbers was true division"),
    ("C17", "c915d8f", "weights given as iterators disabled the capacities"),
    ("C19", "5a697f1", "ascii_map_coloring -i failed for every file"),
    ("C19", "87bff1a", "the knapsack tool printed a solution when none was found"),
    ("C19", "020169f", "the cryptarithm tool printed no digits for lower-case statements"),
    ("C11", "3f6e518", "names that end with a newline were accepted"),
    ("C11", "880d036", "every optimisation added two parameters to the model for good; a search of the same model starting in another thread failed with 'OrderedDict mutated during iteration' (C08)"),
    ("C16", "3f78b86", "only one comparison of a chained statement ('AB == CD == EF') was honoured"),
    ("C11", "63a1aeb", "the model kept the caller's domain list: changing it later changed the model, and two variables given one iterator shared it (C01)"),
    ("C17", "d17d20a", "the optimiser of an empty item set failed with AttributeError"),
    ("C10", "6ec4047", "infinities raised NameError when compiled, fractions and decimals were compiled as binary floats: compiled constraints differed from interpreted ones"),
    ("C11", "1e76f5f", "an all-different constraint over a parameter was accepted and failed with KeyError in every search"),
    ("C10", "bad6eed", "constants joined with & or | were rounded to integers (Const(0.5) & Const(0.5) was 0), infinities raised OverflowError"),
    ("C10", "7255942", "dividing an expression by Const(1) did not take the floor: Parameter(5/2) / Const(1) was 5/2"),
    ("C08", "93fcc5b", "a constraint that started another search of the same solver while its own search was being prepared made both use one timer: RuntimeError: already started"),
]


def save(name, doc):
    with open(os.path.join(HERE, name), "w") as fh:
        json.dump(doc, fh, indent=1)
        fh.write("\n")


def main():
    save("dst/details.json", {k: {"rule": r, "real": real, "sim": sim, "assumptions": BASE} for k, (r, real, sim) in D.items()})
    save("known_findings.json", {"findings": [], "fixed": ["fixed: property=%s %s %s" % f for f in FIXED]})
    save("MANIFEST.json", {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.exit(0)'",
        "checks": [{
            "property": k, "quick_cmd": "./run.py check %s --tier quick" % k, "thorough_cmd": "./run.py check %s --tier thorough" % k,
            "evidence_file": "evidence/%s.json" % k,
            "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration",
            "level_note": NOTE[k] + " No exhaustiveness is claimed. Trusts CPython and the reference in dst/.",
        } for k in D],
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
        "notes": "No hooks in /repo: every seam is reached from outside (module clocks, eval, open, stdout, sys.monitoring line events, real constraints written by the simulator). Replay a failure with ./run.py replay FILE.",
    })


main()
