"""Writes properties.jsonl (kept as a script so the statements stay easy to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


SOLVER = "src/satisfy/solver.py"
MODEL = "src/satisfy/model.py"
CONS = "src/satisfy/constraint.py"
EXPR = "src/satisfy/expression.py"
OBJ = "src/satisfy/objective.py"
UTILS = "src/satisfy/utils.py"

prop("C01", "Enumeration is exact: every solution once, nothing else",
     "Whatever the variable-selection policy, constraint-compilation setting, hash seed, random shuffle or pace at which the consumer asks for solutions, a search that runs to its end delivers exactly the assignments of a domain value to every variable that satisfy all constraints, each exactly once, and then ends. "
     "Every prefix of the search delivers only such assignments, without repetition, each covering all variables. "
     "Models marked or proven unsolvable deliver none, and a model without variables has the empty assignment as its only solution.",
     ["inputs", "configurations", "schedules"],
     "all finite models built from integer/boolean variables (domains given as any collection or iterator, possibly empty), parameters, arithmetic/logical expressions, all-different, constant and user-defined constraints; all policies; all shuffles; all hash seeds; all consumer schedules (step, drain, pause, two-speed)",
     "No existing test runs the solver at all (the tests touch expression evaluation and two sentinels); exactness quantifies over every model, policy, set-iteration order and shuffle.",
     [SOLVER, MODEL, CONS, EXPR],
     [("depth-first search over per-variable cached domains", SOLVER + ":Solver.solve"),
      ("domain pre-filtering and constraint indexing", SOLVER + ":Solver._setup"),
      ("partial-assignment check", CONS + ":Constraint.unsatisfied")],
     state=[("stack/domains", "the open search path and remaining candidate values per variable", SOLVER + ":Solver.solve")],
     observe=["iteration over Solver.solve / ModelSolver"])

prop("C02", "Solution order is reproducible and obeys the policy",
     "For every variable-selection policy except the random one, the sequence of solutions is a function of the model and the policy alone: it is identical in repeated runs, in other processes and under every hash-randomisation seed, for plain models and for the bundled puzzle solvers. "
     "With the ordered (reversed) policy it is lexicographic in (reversed) declaration order of the variables and order of their domain values. "
     "With the other non-random policies it is lexicographic in some order of the variables, which for min-bound (max-bound) puts variables declared "
     "with fewer (more) values first, and for min-constraint (max-constraint) those that appear in fewer (more) constraints, however these are counted. "
     "The random policy draws only on Python's global random generator, so the same seeding gives the same sequence, and it never changes which solutions exist.",
     ["configurations", "schedules", "inputs"],
     "all models and puzzles, all PYTHONHASHSEED values, all states of the global random generator, repeated runs",
     "A unit test runs under one hash seed in one process; set-iteration order varies across processes, so order leaks are invisible to it.",
     [SOLVER, "src/satisfy/cryptarithm.py", "src/satisfy/sudoku.py", "src/satisfy/graph_labeling.py", "src/satisfy/nonogram.py"],
     [("stable sorts over declaration order", SOLVER + ":Solver.solve"), ("insertion-ordered model variables", MODEL + ":Model"),
      ("random.shuffle on the global generator", SOLVER + ":Solver.solve")],
     observe=["sequence of yielded solutions"])

prop("C03", "A solution limit delivers exactly the first N solutions",
     "A search limited to N solutions delivers exactly the first min(N, total) solutions of the unlimited search under the same policy (none for N = 0), then ends. "
     "It reports having been interrupted by the limit exactly when N solutions were delivered; with no limit or an infinite one it is never so interrupted. "
     "This holds whether the limit is set at construction, changed between runs or overridden for one run, and whatever else (pauses, clock steps, earlier runs) happens around it.",
     ["inputs", "configurations", "histories", "schedules"],
     "all models, all N including 0, total and beyond, all ways of giving the limit, all consumer schedules and earlier histories on the solver",
     "No test sets a limit; boundary values and stale state from earlier runs need many histories.",
     [SOLVER, UTILS],
     [("solution counter", SOLVER + ":Solver.solve"), ("limit property normalising infinity", SOLVER + ":Solver.limit")],
     state=[("interrupt reason", "why the last run stopped", SOLVER + ":Solver._interrupt")],
     observe=["yielded solutions", "get_stats().interrupt"])

prop("C04", "A timeout stops the search promptly and honestly",
     "Once the time spent searching (excluding time the consumer holds a solution) exceeds the timeout, the search ends after at most the work of one more search step and at most one more solution, and reports that it was interrupted by the timeout. "
     "A search whose search time never exceeds the timeout, or that has no or an infinite timeout, is never cut, however long the consumer pauses. "
     "What was delivered before the cut is exactly a prefix of the untimed search, and a search not reported as interrupted is complete.",
     ["schedules", "fault_sequences", "configurations"],
     "all models, timeouts, evaluation costs, stalls of single evaluations and consumer pauses; timeout at construction, by attribute or per run",
     "No test uses a timeout, and with a real clock the instant of expiry cannot be placed at every step of the search.",
     [SOLVER, UTILS],
     [("deadline check at each search step", SOLVER + ":Solver.solve"), ("stop/start of the timer around a delivered solution", UTILS + ":Timer")],
     state=[("timer", "accumulated search time of the current run", SOLVER + ":Solver._timer")],
     observe=["yielded solutions", "get_stats()", "simulated clock at each constraint evaluation"])

prop("C05", "Wall-clock steps do not disturb timeouts or timings",
     "Steps forward or backward, freezes and skew of the system's calendar clock during a search neither end the search early nor let it run past its timeout. "
     "They never make the reported search time negative, decreasing or different from the time that really passed while searching.",
     ["fault_sequences", "schedules"],
     "all sequences of wall-clock steps placed at any clock read, evaluation, or consumer pause, with and without a timeout",
     "Requires stepping the system clock at chosen instants inside a search; no test can or does.",
     [UTILS, SOLVER],
     [("choice of clock source for timing", UTILS + ":Timer")],
     state=[("start mark and accumulated time", "the timer's only state", UTILS + ":Timer")],
     observe=["yielded solutions", "get_stats()"])

prop("C06", "Run statistics tell the truth at every moment",
     "At every pause and after the end of a run, however it ended (exhausted, limit, timeout, abandoned, failed), the reported solution count equals the number of solutions that run has delivered and the reported time equals the time spent searching: never time the consumer held a solution, and including the final stretch after the last solution (only of a step that failed may the time go unreported). "
     "The interrupt reason is absent exactly when the run was not cut by its limit or timeout. "
     "Each run starts from zero, uninfluenced by earlier runs on the same solver.",
     ["schedules", "histories", "fault_sequences"],
     "all run histories on a solver with non-overlapping runs, all evaluation costs and pauses, every stopping point",
     "No test reads statistics; exact accounting needs a controlled clock and every kind of run ending.",
     [SOLVER, UTILS],
     [("timer start/stop/abort around the search loop", SOLVER + ":Solver.solve"), ("get_stats", SOLVER + ":Solver.get_stats")],
     state=[("timer, interrupt", "per-run accounting", SOLVER + ":Solver._reset")],
     observe=["get_stats()"])

prop("C07", "Optimisation improves strictly, ends at the optimum, claims it honestly",
     "Optimising a model for one or several objectives delivers only feasible assignments, each strictly better than the one before in every objective. "
     "When the search is not interrupted, no feasible assignment is strictly better than the last one delivered in every objective, and a feasible model delivers at least one; for one objective the last is a true optimum. "
     "Under any limit or timeout, the result is the best delivered so far and is claimed optimal only if it is; an infeasible model gives no solution and no optimality claim.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "all models and objectives (any subset of variables, positive or negative coefficients, minimise/maximise/several), all policies and compile settings, all limits, timeouts and interleavings with other runs",
     "No test optimises anything; correctness depends on how bounds discovered during the search meet candidate values computed before, for every visiting order.",
     [SOLVER, OBJ, MODEL],
     [("dynamic bound constraint", OBJ + ":MinMaxConstraint.set_bound"), ("bound update after each solution", SOLVER + ":Solver.optimize"),
      ("optimality claim", SOLVER + ":Solver.optimal_solution")],
     state=[("bound parameters", "best objective value so far", OBJ + ":MinMaxConstraint")],
     observe=["Solver.optimize", "Solver.optimal_solution"])

prop("C08", "Concurrent searches do not disturb each other or delivered results",
     "Any number of searches and optimisations over the same or different models, through the same or different solvers, advanced in any interleaving from one thread, each deliver exactly what they deliver when run alone; so do searches and optimisations through separate solvers over one shared model from several threads preempted anywhere. "
     "Solutions already delivered never change afterwards, and a consumer that modifies or empties a delivered solution affects no search. "
     "Abandoning or closing one search at any point leaves the others unaffected.",
     ["schedules", "histories"],
     "all interleavings of open searches at solution granularity, all thread preemptions at line granularity, all mutations of delivered solutions, all closing points",
     "Interleavings cannot be sampled by a single straight-line test; no test opens even one search.",
     [SOLVER, MODEL, CONS, OBJ, UTILS],
     [("search state local to the generator", SOLVER + ":Solver.solve"), ("copy of the partial assignment", SOLVER + ":Solver.solve"),
      ("fresh timer per run", SOLVER + ":Solver._reset")],
     observe=["yielded solutions of each iterator"])

prop("C09", "An interruption or failure at any instant is never swallowed",
     "If an exception strikes at any instant of building a model, searching or optimising (a constraint raising, KeyboardInterrupt, out of memory, recursion limit), then either it reaches the caller of that step or the step's outcome is still exactly right; a keyboard interrupt always reaches the caller. "
     "A search never appears complete, optimal or infeasible because a failure hid part of the search space. "
     "Afterwards the same model and solver still give complete and correct results in a new run.",
     ["fault_sequences", "crash_points", "histories"],
     "all points (every executed line and every constraint evaluation) at which an exception can strike, all exception kinds, all operations under way",
     "Requires raising at every line of the library during many different operations.",
     [SOLVER, MODEL, CONS, EXPR, OBJ],
     [("no handlers around the search loop", SOLVER + ":Solver.solve"), ("compile fallback", EXPR + ":Expression.as_function"),
      ("state reset at start of run", SOLVER + ":Solver._reset")],
     observe=["exceptions out of next()", "results of the following run"])

prop("C10", "Compiling constraints never changes their meaning",
     "Which assignments satisfy a constraint, and how an expression evaluates, is the same whether the constraint is interpreted, compiled, recompiled, or failed to compile (for any reason: deep nesting, awkward variable names, memory), in any history of runs with compilation on and off. "
     "Every search uses the values the parameters have when it starts (they are not changed while it is under way), whatever values they had when the constraint was built or previously compiled. "
     "The value is the ordinary arithmetic/logical value of the expression as written, whatever numbers its constants and parameters are (integers, fractions, decimals, floats, infinities), with '/' meaning floor division and '&', '|' meaning short-circuit and/or; a constant zero may absorb what it multiplies or is divided by.",
     ["histories", "inputs", "fault_sequences", "programs"],
     "all expressions over variables, parameters and constants of every numeric type; all legal variable names; all histories of parameter updates, compile/interpret runs and injected compilation failures",
     "The tests evaluate eight fixed expressions, and because of a fixture slip only in compiled form.",
     [EXPR, CONS, OBJ, SOLVER],
     [("source generation", EXPR + ":Expression.py_source"), ("compile with fallback", EXPR + ":Expression.as_function"),
      ("compiled/interpreted dispatch", CONS + ":ExpressionConstraint.evaluate")],
     state=[("compiled function", "cached function with parameter values inlined", CONS + ":ExpressionConstraint._evaluate_function"),
            ("parameter value", "mutable constant", EXPR + ":Parameter")],
     observe=["solutions", "Constraint.evaluate", "Expression.compile_py_function"])

prop("C11", "A search sees the model as of its start; rejected edits leave no trace",
     "Variables and constraints added to a model take effect in every search started afterwards and in none already under way; nothing but such edits changes a model, neither searches nor optimisations. "
     "A rejected addition (bad or duplicate name, repeated domain value, constraint over unknown variables, all-different over something that is no variable of the model, wrong type) raises and leaves the model exactly as it was. The collections a caller passes in stay the caller's: reusing or changing them later changes no model. "
     "Once a never-satisfied constant constraint is added or the model is declared unsolvable, the model says it is not solvable and every later search delivers nothing. A model reports the variables, domains and parameters that were added to it.",
     ["histories", "schedules"],
     "all histories of accepted and rejected edits interleaved with open, partly consumed and finished searches",
     "No test builds a model; the property quantifies over edit/search interleavings.",
     [MODEL, SOLVER],
     [("validation before mutation", MODEL + ":Model.add_constraint"), ("snapshot at start of search", SOLVER + ":Solver._setup")],
     state=[("variables, constraints, solvable flag", "the model's whole state", MODEL + ":Model.__init__")],
     observe=["solutions", "Model.variables()", "Model.constraints()", "Model.solvable()"])

prop("C12", "A run's outcome does not depend on earlier runs",
     "The solutions and their order, the optimum, and the interrupt reason of a run depend only on the model's contents and the run's own settings. "
     "Any history of finished, limited, timed-out, abandoned, failed or optimising runs on the same solver and model, including runs with extra one-run constraints or per-run overrides, leaves a following run identical to one on a freshly built solver and model, and the solver with the settings it was last given.",
     ["histories", "fault_sequences"],
     "all sequences of runs of every kind and ending on one solver and model",
     "State leaking between runs shows only after particular histories, none of which a test produces.",
     [SOLVER, OBJ, CONS, MODEL],
     [("per-run setup and reset", SOLVER + ":Solver._reset"), ("fresh bound constraints per optimisation", OBJ + ":MinMax.make_constraint")],
     state=[("compiled functions, added parameters, interrupt, timer", "what survives a run", SOLVER)],
     observe=["solutions, stats and optimum of the last run of a history"])

prop("C13", "Sudoku: every delivered grid is valid and none is missed",
     "Every grid delivered for a 9x9 schema keeps the givens (as they were when the puzzle was built) and has each of 1-9 once in every row, column and block; an unlimited search delivers every such completion exactly once, so contradictory givens deliver none and an already complete valid grid delivers itself. "
     "By default at most one is delivered, and a search cut by limit or timeout is reported as such and has delivered only valid grids. "
     "This holds for any interleaving of several puzzles' searches, pauses and stops.",
     ["inputs", "schedules", "fault_sequences"],
     "all 9x9 schemas (unique, ambiguous, contradictory, full), all limits, timeouts, shuffles and interleavings",
     "No test touches the sudoku solver.",
     ["src/satisfy/sudoku.py", SOLVER],
     [("domain pruning by givens", "src/satisfy/sudoku.py:SudokuSolver.__init__"), ("all-different on rows, columns, blocks", "src/satisfy/sudoku.py:SudokuSolver.__init__")],
     observe=["SudokuSolver iteration"])

prop("C14", "Nonogram: delivered pictures match the clues, all and only those",
     "Every picture delivered has exactly the runs of filled cells that the row and column clues, as given when the puzzle was built, say, in that order; a search run to its end delivers each such picture exactly once, including the blank picture for empty clues and none for clues that cannot be met. "
     "Cutting the search by a limit or timeout at any instant, shuffling, pausing or interleaving it with others changes neither the validity of what was delivered nor the truth of the reported reason.",
     ["inputs", "schedules", "fault_sequences"],
     "all clue sets of positive run lengths and all shapes, all stopping instants, shuffles and interleavings",
     "No test touches the nonogram solver.",
     ["src/satisfy/nonogram.py", SOLVER],
     [("start-position variables with order constraints", "src/satisfy/nonogram.py:NonogramSolver.__init__"), ("cell agreement constraints", "src/satisfy/nonogram.py:NonogramSolver.__init__")],
     observe=["NonogramSolver iteration"])

prop("C15", "Graph and map colouring: proper colourings, all and only those",
     "Every labelling delivered for a graph gives each node one of the labels and adjacent nodes different ones; a search run to its end delivers each such labelling exactly once. "
     "For an ASCII map, regions are maximal 8-connected areas of one character, touching regions (also diagonally) get different colours, every region cell is drawn with its region's tag and blanks stay blank; by default one colouring is delivered. "
     "Stops, pauses, shuffles and interleavings never produce an improper colouring or a false completeness report.",
     ["inputs", "schedules", "fault_sequences"],
     "all graphs (also with self-loops and isolated nodes), label sets, ASCII maps (ragged, multi-region), limits, timeouts and interleavings",
     "No test touches these solvers.",
     ["src/satisfy/graph_labeling.py", "src/satisfy/tool/ascii_map_coloring.py", SOLVER],
     [("inequality per edge", "src/satisfy/graph_labeling.py:GraphLabelingSolver.__init__"), ("flood fill and neighbour detection", "src/satisfy/tool/ascii_map_coloring.py:AsciiMapColoringSolver.__init__")],
     observe=["GraphLabelingSolver and AsciiMapColoringSolver iteration"])

prop("C16", "Cryptarithm: digit assignments are right and complete",
     "Every delivered assignment maps the puzzle's letters (case-insensitive) to distinct digits that make the statement true, every comparison of a chained statement included, when each word is read as the decimal number it spells, literal digits in place and '/' being floor division; a search run to its end delivers each such assignment exactly once. "
     "With leading zeros avoided (the default) no word's first letter is zero; with them allowed, those assignments are delivered too. "
     "Hash order, stops, pauses and interleavings never change this.",
     ["inputs", "configurations", "schedules"],
     "all cryptarithm statements over + - * / % and comparisons, single, chained or joined, with mixed letter/digit words, both leading-zero settings, all hash seeds, limits, timeouts and interleavings",
     "No test touches the cryptarithm solver.",
     ["src/satisfy/cryptarithm.py", EXPR, SOLVER],
     [("rewriting of words to linear forms", "src/satisfy/cryptarithm.py:CryptarithmSolver.__init__")],
     observe=["CryptarithmSolver iteration"])

prop("C17", "Knapsack: selection fits, is best, and is claimed best honestly",
     "Of the items as given when the problem was built: the selection returned fits every capacity, its reported value and weights are those of the selected items, and when it is claimed optimal no fitting selection has a greater value. "
     "An uninterrupted optimisation of a feasible instance always ends with that claim; an infeasible one returns no selection. "
     "Cut by a limit or timeout at any instant, it returns a fitting selection, or none if none was reached, and never a false claim.",
     ["inputs", "fault_sequences", "configurations"],
     "all item sets, the empty one included (zero, negative, equal values; zero weights), dimensions and capacities, all policies, limits and timeout instants",
     "No test touches the knapsack optimiser.",
     ["src/satisfy/knapsack.py", SOLVER, OBJ],
     [("capacity constraints and maximise objective", "src/satisfy/knapsack.py:KnapsackOptimizer")],
     observe=["KnapsackOptimizer()() result", "get_stats()"])

prop("C18", "Queens and Einstein: right boards, right houses, all of them",
     "Every board delivered for size N has N queens, none attacking another, and a search run to its end delivers each such board exactly once (92 for N = 8). "
     "The Einstein riddle has exactly one solution, the published one, delivered once with every attribute of every house. "
     "Stops, pauses, shuffles, mutations of delivered boards and interleavings never change this.",
     ["inputs", "schedules", "fault_sequences"],
     "all board sizes, policies, limits, timeouts, shuffles and interleavings",
     "No test touches these solvers.",
     ["src/satisfy/tool/queens.py", "src/satisfy/tool/einstein_riddle.py", SOLVER],
     [("diagonal variables and all-different", "src/satisfy/tool/queens.py:QueensSolver.__init__"), ("fifteen statements", "src/satisfy/tool/einstein_riddle.py:EinsteinRiddleSolver.__init__")],
     observe=["QueensSolver and EinsteinRiddleSolver iteration"])

prop("C19", "The command-line tool reports what the search really did",
     "For every subcommand, each solution printed is a correct solution of the given problem, numbered consecutively, at most as many as the limit option allows, and the closing line states the true number and the time the search took. "
     "The closing line says 'all', 'unique' or 'optimal' only when the search was exhausted and that is true, and otherwise names the limit or timeout that cut it; the timeout option really bounds the search. "
     "Problems can be given by file, option or built-in default with the same result.",
     ["configurations", "inputs", "schedules"],
     "all subcommands, option combinations, problem files, and instants at which the simulated timeout expires",
     "No test runs the tool; the build only imports it.",
     ["src/satisfy/tool/__init__.py", "src/satisfy/tool/demo_utils.py", "src/satisfy/tool/demo_sudoku.py", "src/satisfy/tool/demo_nonogram.py", "src/satisfy/tool/demo_knapsack.py",
      "src/satisfy/tool/demo_cryptarithm.py", "src/satisfy/tool/demo_graph_labeling.py", "src/satisfy/tool/demo_ascii_map_coloring.py", "src/satisfy/tool/demo_queens.py", "src/satisfy/tool/demo_einstein_riddle.py"],
     [("option plumbing", "src/satisfy/tool/__init__.py:main"), ("closing line", "src/satisfy/tool/demo_utils.py:print_solve_stats")],
     observe=["stdout and exit of main()"])

prop("C20", "The command-line tool never turns an I/O fault into a wrong answer",
     "If the problem file cannot be opened or read in full, or is cut short so that it is no longer valid, the tool fails with an error and prints no solution and no closing statement. "
     "Reads that return data in arbitrarily small pieces change nothing. "
     "If writing the output fails, or an interrupt arrives, the tool fails with an error, and what was written is a prefix of the fault-free output.",
     ["fault_sequences", "crash_points"],
     "all open errors, read errors at any offset, truncations, short reads, write errors at any write, interrupts at any executed line",
     "Needs a fault-injecting file system and output stream; no test runs the tool.",
     ["src/satisfy/tool/__init__.py", "src/satisfy/tool/demo_sudoku.py", "src/satisfy/tool/demo_nonogram.py", "src/satisfy/tool/demo_knapsack.py", "src/satisfy/tool/demo_graph_labeling.py", "src/satisfy/tool/demo_ascii_map_coloring.py"],
     [("input loading before any solving", "src/satisfy/tool/demo_*.py"), ("plain prints without handlers", "src/satisfy/tool/demo_*.py")],
     observe=["stdout, exception and exit of main()"])

prop("C21", "Searches work on demand, however large the search space",
     "Opening a search, an optimisation or a puzzle does no more than preparation; each next solution costs only the work of finding it, and reaching a limit, closing, abandoning or interrupting a search ends its work at once. "
     "So the first solutions of a problem with astronomically many, or with none for a long stretch after those wanted, arrive within a bounded number of steps under every policy, pause and interleaving (also through the command-line tool, which prints each solution as it is found), and a search holds on to nothing for solutions its consumer has forgotten. "
     "A search over such a space does not end by itself before its limit, its timeout or its last solution.",
     ["inputs", "configurations", "schedules"],
     "all models whose search tree has no dead ends, and all models whose wanted solutions come first in the order of the policy, of any size; all policies, limits, timeouts; all schedules of requests, pauses, closes and interrupts",
     "No test runs a search, let alone one whose space cannot be exhausted; a search that looks one solution too far, or collects solutions first, gives identical results on every space small enough to enumerate.",
     [SOLVER, OBJ, "src/satisfy/sudoku.py", "src/satisfy/graph_labeling.py", "src/satisfy/tool/ascii_map_coloring.py", "src/satisfy/tool/demo_utils.py"],
     [("generators suspended at each solution", SOLVER + ":Solver.solve"), ("limit tested before the search goes on", SOLVER + ":Solver.solve"),
      ("optimisation built on the generator", SOLVER + ":Solver.optimize")],
     observe=["constraint evaluations and executed lines between requests"])

# --- not applicable to deterministic simulation (see MANIFEST.not_applicable) ---
prop("N01", "Clues extracted from a picture describe exactly that picture",
     "Converting a picture (a pixel matrix or text image) to nonogram clues gives, for every row and column, the lengths of its runs of filled cells in order, and drawing a pixel matrix as text and reading it back gives the same matrix.",
     ["inputs"], "all pixel matrices and text images",
     "No test touches the conversion.",
     ["src/satisfy/nonogram.py", "src/satisfy/tool/demo_nonogram.py"],
     [("run-length scan", "src/satisfy/nonogram.py:pixmap_to_nonogram")], observe=["return values"])

prop("N02", "Structural equality of expressions distinguishes different expressions",
     "Comparing two expressions structurally says they are equal exactly when they are built the same way from the same variables and constants.",
     ["inputs", "programs"], "all pairs of expressions",
     "No test compares two expressions structurally.",
     [EXPR], [("equals", EXPR + ":Expression.equals")], observe=["return value of equals"])

prop("N03", "Sentinel values are unique and printable",
     "The infinity and undefined sentinels are singletons, distinct from each other, survive being requested again, and can be shown as text.",
     ["inputs"], "every way of obtaining the two sentinels",
     "Three existing tests check identity; text conversion is untested.",
     [UTILS], [("singleton construction", UTILS + ":_Singleton")], observe=["identity, str, repr"])

prop("N04", "Invalid puzzle and model arguments are rejected with a clear error",
     "Malformed arguments (schemas of the wrong shape, non-integer knapsack data, wrong numbers of weights, non-policy policies, non-objectives) raise ValueError or TypeError instead of being accepted.",
     ["inputs"], "all malformed arguments",
     "No test passes malformed input.",
     ["src/satisfy/sudoku.py", "src/satisfy/knapsack.py", MODEL, SOLVER], [("argument checks", "src/satisfy/knapsack.py:KnapsackOptimizer.__init__")], observe=["raised exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(p) + "\n")
print(len(P))
