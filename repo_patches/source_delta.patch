From cea87ef15d151b68da9fed42dca838e9076aa66a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 01/31] fix: generate Python source that preserves the
 structure of the expression

The source compiled for an expression lost parentheses ('or', 'not', unary
minus, sums, products, negative constants and parameters before '**') and used
the display form of nested operators inside '-' and 'abs' ('/', '&', '|' and
parameter names), so compiled constraints could differ from interpreted ones.
---
 src/satisfy/expression.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 0a99ed8..a2c4fef 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -222,7 +222,7 @@ class Const(Expression):
         return str(self._value)
 
     def py_expr(self):
-        return str(self)
+        return "({})".format(self)
 
     def __add__(self, other):
         if self._value == 0:
@@ -438,7 +438,7 @@ class Neg(UnOp):
         return "-({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "(-{})".format(self.operand.py_expr())
 
 
 class Abs(UnOp):
@@ -449,7 +449,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "abs({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
@@ -601,7 +601,7 @@ class Or(BinOp):
         return left_value or right_value
 
     def py_expr(self):
-        return "{} or {}".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
+        return "({} or {})".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
 
 
 class Not(UnOp):
@@ -615,7 +615,7 @@ class Not(UnOp):
         return "^{}".format(self._expressions[0])
 
     def py_expr(self):
-        return "not {}".format(self._expressions[0].py_expr())
+        return "(not {})".format(self._expressions[0].py_expr())
 
 
 class Accumulation(Collection):
@@ -706,7 +706,7 @@ class Sum(Accumulation):
         return self._as_str(op='+', fun='sum')
 
     def py_expr(self):
-        return self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr())
+        return "({})".format(self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr()))
 
 
 class Prod(Accumulation):
@@ -728,7 +728,7 @@ class Prod(Accumulation):
         return self._as_str(op='*', fun='prod')
 
     def py_expr(self):
-        return self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr())
+        return "({})".format(self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr()))
 
 
 class Variable(Expression):
@@ -789,4 +789,4 @@ class Parameter(Variable):
         return self._value
 
     def py_expr(self):
-        return str(self._value)
+        return "({})".format(self._value)
-- 
2.43.0


From 6d09736bf013d912f78955e5bf50d87f72b8d092 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:55 +0000
Subject: [PATCH 02/31] fix: make the fallback for uncompilable expressions
 work

When an expression cannot be compiled (keyword used as variable name, too much
nesting) as_function() returned evaluate(), which does not accept the keyword
arguments compiled functions are called with; and its bare except swallowed
KeyboardInterrupt and SystemExit.
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index a2c4fef..ef7c3fd 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -67,9 +67,9 @@ class Expression(abc.ABC):
     def as_function(self):
         try:
             return self.compile_py_function()
-        except:
+        except Exception:
             LOG.exception("compilation of py function failed:")
-        return self.evaluate
+        return lambda **substitution: self.evaluate(substitution)
 
     @abc.abstractmethod
     def py_expr(self):
-- 
2.43.0


From 0c2685ecf5b81686d581c33eeeb7622309abb609 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:56 +0000
Subject: [PATCH 03/31] fix: compile expressions whose variables are called
 sum, prod or abs

Variables with these (legal) names hid the helper functions of the compiled
source; names that Python normalizes (NFKC) made the compiled function reject
its arguments.
---
 src/satisfy/expression.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index ef7c3fd..2f47b95 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -58,7 +58,12 @@ class Expression(abc.ABC):
 
     def compile_py_function(self):
         py_source = self.py_source()
-        return eval(py_source, {'sum': sum, 'prod': prod})
+        py_function = eval(py_source, {'__sum__': sum, '__prod__': prod, '__abs__': abs})
+        var_names = tuple(self.vars())
+        if py_function.__code__.co_varnames[:len(var_names)] != var_names:
+            # identifiers are normalized by the compiler
+            raise ValueError("variable names {} cannot be used in python source".format(var_names))
+        return py_function
         # def ff(substitution):
         #     print("///", sorted(substitution.items(), key=lambda x: x[0]))
         #     return fn(**substitution)
@@ -449,7 +454,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return "abs({})".format(self.operand.py_expr())
+        return "__abs__({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
@@ -706,7 +711,7 @@ class Sum(Accumulation):
         return self._as_str(op='+', fun='sum')
 
     def py_expr(self):
-        return "({})".format(self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr()))
+        return "({})".format(self._as_str(op='+', fun='__sum__', convert=lambda x: x.py_expr()))
 
 
 class Prod(Accumulation):
@@ -728,7 +733,7 @@ class Prod(Accumulation):
         return self._as_str(op='*', fun='prod')
 
     def py_expr(self):
-        return "({})".format(self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr()))
+        return "({})".format(self._as_str(op='*', fun='__prod__', convert=lambda x: x.py_expr()))
 
 
 class Variable(Expression):
-- 
2.43.0


From 99d5b7ecdb38217034a1f32d7efd2be2fa3d5ed2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 04/31] fix: short-circuit '&' and '|' when interpreted, as
 when compiled

A guarded constraint such as (y == 0) | (x / y == 2) failed with
ZeroDivisionError unless it was compiled.
---
 src/satisfy/expression.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 2f47b95..1075f64 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -594,6 +594,9 @@ class And(BinOp):
     __symbol__ = '&'
     __py_symbol__ = 'and'
 
+    def evaluate(self, substitution):
+        return self._expressions[0].evaluate(substitution) and self._expressions[1].evaluate(substitution)
+
     def _op(self, left_value, right_value):
         return left_value and right_value
 
@@ -602,6 +605,9 @@ class Or(BinOp):
     __symbol__ = '|'
     __py_symbol__ = 'or'
 
+    def evaluate(self, substitution):
+        return self._expressions[0].evaluate(substitution) or self._expressions[1].evaluate(substitution)
+
     def _op(self, left_value, right_value):
         return left_value or right_value
 
-- 
2.43.0


From 8d4b3288c951b206d5a58a850bd02523081ffdea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 05/31] fix: allow dividing a plain number by an expression

'10 / x' raised TypeError because it was turned into the undefined '//'.
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 1075f64..3d97819 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -167,10 +167,10 @@ class Expression(abc.ABC):
         return self.coerce(other) * self
 
     def __rdiv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rtruediv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rmod__(self, other):
         return self.coerce(other) % self
-- 
2.43.0


From 7249d104f61095fdca1ab2f4223bc60a69943560 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 06/31] fix: do not use functions compiled in an earlier run
 when compilation is off

A constraint compiled by one run kept the parameter values of that time and was
used by later runs with compile_constraints=False.
---
 src/satisfy/constraint.py | 11 +++++++++--
 src/satisfy/solver.py     |  2 ++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/constraint.py b/src/satisfy/constraint.py
index 74d7931..58a6c02 100644
--- a/src/satisfy/constraint.py
+++ b/src/satisfy/constraint.py
@@ -35,6 +35,9 @@ class Constraint(abc.ABC):
     def compile(self):
         pass
 
+    def decompile(self):
+        pass
+
     def is_compiled(self):
         return False
 
@@ -68,16 +71,20 @@ class ExpressionConstraint(Constraint):
     def compile(self):
         self._evaluate_function = self._expression.as_function()
 
+    def decompile(self):
+        self._evaluate_function = None
+
     def evaluate_function(self):
         if self._evaluate_function is None:
             self._evaluate_function = self._expression.as_function()
         return self._evaluate_function
 
     def evaluate(self, substitution):
-        if self._evaluate_function is None:
+        evaluate_function = self._evaluate_function
+        if evaluate_function is None:
             return self._expression.evaluate(substitution)
         else:
-            return self._evaluate_function(**substitution)
+            return evaluate_function(**substitution)
 
     def __repr__(self):
         return "{}({!r})".format(type(self).__name__, self._expression)
diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 82e525d..bda14e8 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -104,6 +104,8 @@ class Solver(object):
         for constraint in itertools.chain(model.constraints(), additional_constraints):
             if compile_constraints:
                 constraint.compile()
+            else:
+                constraint.decompile()
             c_vars = constraint.vars()
             for var_name in c_vars:
                 if var_name in pure_variables:
-- 
2.43.0


From f86c04380523bf1696890589d5e9dd59799c7472 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:02 +0000
Subject: [PATCH 07/31] fix: make Model.set_solvable take effect

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index dc1f2dd..743890a 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -93,7 +93,7 @@ class Model(object):
         return self._variables[name].variable
 
     def set_solvable(self, solvable):
-        self.__unsolvable = True
+        self.__solvable = bool(solvable)
 
     def add_constraint(self, constraint):
         if isinstance(constraint, bool):
-- 
2.43.0


From d9e4ddc2a5be87d20e19d3619b491795c8fcefd8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:04 +0000
Subject: [PATCH 08/31] fix: decide constraints on parameters alone when a
 search starts

A constraint without variables was evaluated once when added: it was dropped or
made the model unsolvable for good, whatever values its parameters took later.
The same kind of constraint passed as additional constraint was ignored.
---
 src/satisfy/constraint.py |  6 ++++++
 src/satisfy/expression.py | 10 ++++++++++
 src/satisfy/model.py      |  2 +-
 src/satisfy/solver.py     |  6 +++++-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/constraint.py b/src/satisfy/constraint.py
index 58a6c02..2fee510 100644
--- a/src/satisfy/constraint.py
+++ b/src/satisfy/constraint.py
@@ -32,6 +32,9 @@ class Constraint(abc.ABC):
     def vars(self):
         return self._var_names
 
+    def is_constant(self):
+        return not self._var_names
+
     def compile(self):
         pass
 
@@ -65,6 +68,9 @@ class ExpressionConstraint(Constraint):
         super().__init__(self._expression.vars())
         self._evaluate_function = None
 
+    def is_constant(self):
+        return super().is_constant() and not any(True for _ in self._expression.params())
+
     def is_compiled(self):
         return self._evaluate_function is not None
 
diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 3d97819..3f7e723 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -33,6 +33,9 @@ class Expression(abc.ABC):
     def vars(self):
         yield from self.free_vars({})
 
+    def params(self):
+        yield from ()
+
     @abc.abstractmethod
     def evaluate(self, substitution):
         raise NotImplementedError()
@@ -346,6 +349,10 @@ class Collection(Expression):
     def vars(self):
         yield from self._vars
 
+    def params(self):
+        for expr in self._expressions:
+            yield from expr.params()
+
     def free_vars(self, substitution):
         for var in self._vars:
             if var not in substitution:
@@ -796,6 +803,9 @@ class Parameter(Variable):
     def vars(self):
         yield from ()
 
+    def params(self):
+        yield self
+
     def evaluate(self, substitution):
         return self._value
 
diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 743890a..e2d4bc9 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -103,7 +103,7 @@ class Model(object):
         elif not isinstance(constraint, Constraint):
             raise TypeError("{} is not a valid constraint".format(constraint))
         var_names = tuple(constraint.vars())
-        if not var_names:
+        if not var_names and constraint.is_constant():
             value = constraint.evaluate({})
             if value:
                 LOG.warning("constraint {} is always satisfied".format(constraint))
diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index bda14e8..da6334d 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -158,7 +158,7 @@ class Solver(object):
         timeout = args.get('timeout', self._timeout)
         limit = args.get('limit', self._limit)
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
-        additional_constraints = args.get('additional_constraints', ())
+        additional_constraints = tuple(args.get('additional_constraints', ()))
         # print("::: timeout=", timeout)
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
@@ -167,6 +167,10 @@ class Solver(object):
             return
 
         model_info = self._setup(model, additional_constraints=additional_constraints)
+        for constraint in itertools.chain(model.constraints(), additional_constraints):
+            if not constraint.vars() and not constraint.evaluate({}):
+                # never satisfied with the current parameters
+                return
         variables = model_info.variables
         var_constraints = model_info.var_constraints
         var_ad_constraints = model_info.var_ad_constraints
-- 
2.43.0


From eff27680e1753bb122489381d69580c4bad361a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 09/31] fix: check objective bounds again before delivering a
 solution

The candidate values of a variable are computed before the bound of an
objective is tightened by the next solution, and constraints on one variable
are only looked at when the search starts: optimisation could deliver worse
solutions after better ones and claim a wrong optimum.
---
 src/satisfy/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index da6334d..7266bdb 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -275,6 +275,9 @@ class Solver(object):
             substitution[var_name] = value
             if unbound_vars:
                 stack.append((unbound_vars, substitution))
+            elif any(constraint.unsatisfied(substitution) for constraint in additional_constraints):
+                # additional constraints can become stricter during the search
+                continue
             else:
                 timer.stop()
                 # for constraint in model.constraints():
-- 
2.43.0


From e0954f5df52795492463c59b074ad7f4cc64575c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 10/31] fix: account the last stretch of a search in its
 statistics

The timer was left running when a search was exhausted or timed out, so the
time since the last solution (all of it without solutions) was not reported.
---
 src/satisfy/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 7266bdb..b76f9ca 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -234,6 +234,7 @@ class Solver(object):
             if timeout is not None:
                 cur_elapsed = timer.elapsed()
                 if cur_elapsed > timeout:
+                    timer.abort()
                     self._interrupt = "timeout"
                     return
 
@@ -290,6 +291,7 @@ class Solver(object):
                     return
                 timer.start()
                 continue
+        timer.abort()
 
     def _solve_forbidden(self, model, **args):
         timeout = args.get('timeout', self._timeout)
-- 
2.43.0


From c950f0b4c033366d70b0ad28496012cde5cf63b2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 11/31] fix: measure search time with the monotonic clock

Steps of the system clock made searches time out early or run past their
timeout, and the reported time wrong or negative.
---
 src/satisfy/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/utils.py b/src/satisfy/utils.py
index 647a457..b65a9a4 100644
--- a/src/satisfy/utils.py
+++ b/src/satisfy/utils.py
@@ -60,12 +60,12 @@ class Timer(object):
     def start(self):
         if self.running():
             raise RuntimeError("already started")
-        self._t_start = time.time()
+        self._t_start = time.monotonic()
 
     def stop(self, *, count=1):
         if not self.running():
             raise RuntimeError("not started")
-        t_elapsed = time.time() - self._t_start
+        t_elapsed = time.monotonic() - self._t_start
         self._t_elapsed += t_elapsed
         self._t_start = None
         self._count += count
@@ -80,7 +80,7 @@ class Timer(object):
 
     def elapsed(self):
         if self.running():
-            return self._t_elapsed + (time.time() - self._t_start)
+            return self._t_elapsed + (time.monotonic() - self._t_start)
         else:
             return self._t_elapsed
 
-- 
2.43.0


From 36de1b5125f3abc533377d24a52b64076ec0907e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:10 +0000
Subject: [PATCH 12/31] fix: honour a limit of 0 and infinite limit and timeout
 for one run

limit=0 delivered one solution; INFINITY given to solve() raised TypeError.
---
 src/satisfy/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index b76f9ca..10b5cf3 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -156,13 +156,20 @@ class Solver(object):
     def solve(self, model, **args):
         self._reset()
         timeout = args.get('timeout', self._timeout)
+        if timeout is INFINITY:
+            timeout = None
         limit = args.get('limit', self._limit)
+        if limit is INFINITY:
+            limit = None
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
         additional_constraints = tuple(args.get('additional_constraints', ()))
         # print("::: timeout=", timeout)
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
         # print("::: additional_constraints=", additional_constraints)
+        if limit is not None and limit <= 0:
+            self._interrupt = "limit"
+            return
         if not model.solvable():
             return
 
-- 
2.43.0


From 13fc8a5363e001edb90472778d72d0eab9b3e489 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 13/31] fix: deliver the only solution of a model without
 variables

A complete sudoku or a nonogram with empty clues had no solution.
---
 src/satisfy/solver.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 10b5cf3..f3bd584 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -219,7 +219,14 @@ class Solver(object):
         elif var_selection_policy is VarSelectionPolicy.MAX_CONSTRAINT:
             var_names = tuple(sorted(var_names, key=lambda x: len(var_constraints[x]), reverse=True))
 
+        timer = self._timer
+        timer.start()
         if not var_names:
+            # nothing to assign: the empty substitution is the only solution
+            timer.stop()
+            yield {}
+            if limit is not None and limit <= 1:
+                self._interrupt = "limit"
             return
 
         # print("::: var_names=", var_names)
@@ -234,8 +241,6 @@ class Solver(object):
         domains = {}
         stack.append((var_names, {}))
 
-        timer = self._timer
-        timer.start()
         num_solutions = 0
         while stack:
             if timeout is not None:
-- 
2.43.0


From ad63c748f65d35379e7727d9cce0cfef0245d712 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 14/31] fix: a sudoku with contradictory givens has no solution

The givens were never checked against each other, so invalid grids were
delivered.
---
 src/satisfy/sudoku.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/sudoku.py b/src/satisfy/sudoku.py
index 6235b60..f64112f 100644
--- a/src/satisfy/sudoku.py
+++ b/src/satisfy/sudoku.py
@@ -55,6 +55,12 @@ class SudokuSolver(ModelSolver):
                                               block_neighbors[cell.block_index]):
                         c1.domain.discard(value)
 
+        for neighbors in itertools.chain(row_neighbors, col_neighbors, block_neighbors):
+            givens = [schema[cell.row_index][cell.col_index] for cell in neighbors]
+            givens = [value for value in givens if value not in null_values]
+            if len(set(givens)) != len(givens):
+                model.set_solvable(False)
+
         row_variables = [[] for _ in range(size)]
         col_variables = [[] for _ in range(size)]
         block_variables = [[] for _ in range(size)]
-- 
2.43.0


From 848a9431b3f9d16cca193235e2931223bbd7fb7c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 15/31] fix: honour avoid_leading_zeros=False in cryptarithms

---
 src/satisfy/cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index da5a22d..1595bdf 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -30,7 +30,7 @@ class CryptarithmSolver(ModelSolver):
         variables = {}
         for m in word.finditer(source):
             number = m.group()
-            if not number[0].isdigit():
+            if avoid_leading_zeros and not number[0].isdigit():
                 non_zero_letters.add(number[0])
             begin, end = m.span()
             parts = []
-- 
2.43.0


From 85a48b7770eacc429c722e16f61a1324e20e8007 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 16/31] fix: declare cryptarithm variables in a fixed order

The letters were declared in set order, so the order of solutions changed with
the hash seed.
---
 src/satisfy/cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index 1595bdf..8abd581 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -63,7 +63,7 @@ class CryptarithmSolver(ModelSolver):
         non_zero_digits = digits[1:]
         variables = {}
         model = self._model
-        for letter in letters:
+        for letter in sorted(letters):
             if letter in non_zero_letters:
                 domain = non_zero_digits
             else:
-- 
2.43.0


From c915d8f81a96a5392b40a73cf50cdcd9debd6535 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:18 +0000
Subject: [PATCH 17/31] fix: accept any iterables as knapsack weights

An iterator of weights was used up by the argument check and the capacities
were then ignored.
---
 src/satisfy/knapsack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index a8df7b9..7c55bcc 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -44,10 +44,10 @@ class KnapsackOptimizer(ModelOptimizer):
         variables = [model.add_bool_variable(name="i_{}".format(i)) for i in range(len(values))]
         constraints = []
         for idx, capacity in enumerate(capacities):
-            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, weights)) <= capacity)
+            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, ws)) <= capacity)
         self._values = values
         self._capacities = capacities
-        self._weights = weights
+        self._weights = ws
         self._variables = variables
         self._model = model
 
-- 
2.43.0


From 5a697f13bb89058ded1374162098c1d53c2acfd1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:31 +0000
Subject: [PATCH 18/31] fix: let ascii_map_coloring read the file given with -i

The option parser already opens the file; opening it again failed for every
input file.
---
 src/satisfy/tool/demo_ascii_map_coloring.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/satisfy/tool/demo_ascii_map_coloring.py b/src/satisfy/tool/demo_ascii_map_coloring.py
index 84102b4..d45153f 100644
--- a/src/satisfy/tool/demo_ascii_map_coloring.py
+++ b/src/satisfy/tool/demo_ascii_map_coloring.py
@@ -59,8 +59,7 @@ No input file - using default data:
 """.format(example=source))
         data = source
     else:
-        with open(input_file, "r") as fh:
-            data = fh.read()
+        data = input_file.read()
 
     ascii_map_coloring_solver = AsciiMapColoringSolver(data, colors, timeout=timeout, limit=limit)
     if show_model:
-- 
2.43.0


From 6686f010dcb8d34ce7524f904f9ee6e2594c27ef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 19/31] fix: divide plain numbers in cryptarithms with floor
 division

---
 src/satisfy/cryptarithm.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index 8abd581..1e95f1f 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -3,6 +3,7 @@ import itertools
 import operator
 import re
 
+from .expression import Const, Expression
 from .solver import ModelSolver, VarSelectionPolicy
 
 __all__ = [
@@ -48,7 +49,11 @@ class CryptarithmSolver(ModelSolver):
                         ldict[letter].append(p10 * (10 ** c))
                     letters.update(part)
                 p10 *= 10 ** len(part)
-            expr_list = [str(num_part)]
+            if ldict:
+                expr_list = [str(num_part)]
+            else:
+                # a plain number is an expression too, e.g. in '7 / 2'
+                expr_list = ['Const({})'.format(num_part)]
             for letter, coeffs in ldict.items():
                 factor = sum(coeffs)
                 if factor == 1:
@@ -76,7 +81,9 @@ class CryptarithmSolver(ModelSolver):
         #         n_expr += variables[letter] * (10 ** ipow)
         #     expressions[number] = n_expr
         # expr = eval(source, expressions)
-        expr = eval(mod_source, variables.copy())
+        expr = eval(mod_source, dict(variables, Const=Const))
+        if not isinstance(expr, Expression):
+            expr = bool(expr)
         model.add_all_different_constraint(list(variables.values()))
         model.add_constraint(expr)
         self._expr = expr
-- 
2.43.0


From 87bff1ac108891c53307b3467ca77aacea98609d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 20/31] fix: do not report a solution when an optimisation
 found none

---
 src/satisfy/tool/demo_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/tool/demo_utils.py b/src/satisfy/tool/demo_utils.py
index 794c2d8..91c7540 100644
--- a/src/satisfy/tool/demo_utils.py
+++ b/src/satisfy/tool/demo_utils.py
@@ -33,7 +33,9 @@ def print_optimization_stats(stats, optimal=None):
     if optimal is None:
         optimal = stats.interrupt is None
 
-    if optimal:
+    if stats.count == 0:
+        kind = 'no'
+    elif optimal:
         kind = 'optimal'
     else:
         kind = 'sub-optimal'
-- 
2.43.0


From 020169f89a0123255143200c8a4398380b8424d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 21/31] fix: show the digits of cryptarithms written in lower
 case

---
 src/satisfy/tool/demo_cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/tool/demo_cryptarithm.py b/src/satisfy/tool/demo_cryptarithm.py
index 6c564ff..101f2df 100644
--- a/src/satisfy/tool/demo_cryptarithm.py
+++ b/src/satisfy/tool/demo_cryptarithm.py
@@ -44,5 +44,5 @@ No input source - using default cryptarithm example:
     for solution in cryptarithm_solver:
         num_solutions += 1
         print("\n=== solution {} ===".format(num_solutions))
-        print_cryptarithm_solution(solution, source)
+        print_cryptarithm_solution(solution, cryptarithm_solver.source)
     print_solve_stats(cryptarithm_solver.get_stats())
-- 
2.43.0


From 3f6e518a9a7bee73b0359f659c9a2908f11f61b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:57 +0000
Subject: [PATCH 22/31] fix: reject names that end with a newline

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index e2d4bc9..2c6beb2 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -27,7 +27,7 @@ VariableInfo = collections.namedtuple("VariableInfo", "variable domain")
 
 
 class Model(object):
-    __re_name__ = re.compile(r'^[a-zA-Z]\w*$')
+    __re_name__ = re.compile(r'^[a-zA-Z]\w*\Z')
 
     def __init__(self):
         self._variables = collections.OrderedDict()
-- 
2.43.0


From 880d036d05d527427596ac91241e69613f00fee7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 23/31] fix: do not add parameters to the model in every
 optimisation

---
 src/satisfy/objective.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/objective.py b/src/satisfy/objective.py
index 1abbebd..540d149 100644
--- a/src/satisfy/objective.py
+++ b/src/satisfy/objective.py
@@ -2,7 +2,7 @@ import abc
 import operator
 
 from .constraint import ExpressionConstraint
-from .expression import Expression
+from .expression import Expression, Parameter
 
 __all__ = [
     'Objective',
@@ -30,8 +30,9 @@ class Objective(abc.ABC):
 class MinMaxConstraint(ExpressionConstraint):
     def __init__(self, model, expression, op):
         self._model = model
-        self._not_set = model.add_parameter(1)
-        self._bound = model.add_parameter(0)
+        # not registered: an optimisation does not change the model
+        self._not_set = Parameter("_not_set", 1)
+        self._bound = Parameter("_bound", 0)
         super().__init__(self._not_set | op(expression, self._bound))
 
     def set_bound(self, value):
-- 
2.43.0


From 3f78b86114a574da7087553b021214a326de0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:51 +0000
Subject: [PATCH 24/31] fix: honour every comparison of a chained cryptarithm

---
 src/satisfy/cryptarithm.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index 1e95f1f..1bf0a61 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -1,3 +1,4 @@
+import ast
 import collections
 import itertools
 import operator
@@ -11,7 +12,22 @@ __all__ = [
 ]
 
 
-    
+class _SplitComparisons(ast.NodeTransformer):
+    # 'A < B < C' is '(A < B) & (B < C)': python itself would drop all the
+    # comparisons but the last one, since an expression is always true
+    def visit_Compare(self, node):
+        self.generic_visit(node)
+        operands = [node.left] + node.comparators
+        result = None
+        for left, op, right in zip(operands, node.ops, node.comparators):
+            comparison = ast.Compare(left=left, ops=[op], comparators=[right])
+            if result is None:
+                result = comparison
+            else:
+                result = ast.BinOp(left=result, op=ast.BitAnd(), right=comparison)
+        return ast.copy_location(result, node)
+
+
 class CryptarithmSolver(ModelSolver):
     def __init__(self, source, avoid_leading_zeros=True, **args):
         if args.get('var_selection_policy', None) is None:
@@ -81,7 +97,9 @@ class CryptarithmSolver(ModelSolver):
         #         n_expr += variables[letter] * (10 ** ipow)
         #     expressions[number] = n_expr
         # expr = eval(source, expressions)
-        expr = eval(mod_source, dict(variables, Const=Const))
+        tree = _SplitComparisons().visit(ast.parse(mod_source.strip(), mode='eval'))
+        code = compile(ast.fix_missing_locations(tree), '<cryptarithm>', 'eval')
+        expr = eval(code, dict(variables, Const=Const))
         if not isinstance(expr, Expression):
             expr = bool(expr)
         model.add_all_different_constraint(list(variables.values()))
-- 
2.43.0


From 63a1aeb6d350d2ed09215563d2ff0028e84d903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:53 +0000
Subject: [PATCH 25/31] fix: give the model its own copy of a domain

---
 src/satisfy/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 2c6beb2..1ae4029 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -75,6 +75,9 @@ class Model(object):
         return parameter
 
     def add_int_variable(self, domain, *, name=None):
+        if not isinstance(domain, (range, tuple)):
+            # the model has its own copy
+            domain = tuple(domain)
         values = set()
         for value in domain:
             if value in values:
-- 
2.43.0


From d17d20a0c51777bf7ffd799ff03fc7eef27ee03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:59 +0000
Subject: [PATCH 26/31] fix: an empty knapsack has an optimal selection

---
 src/satisfy/knapsack.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index 7c55bcc..c58c3d3 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -1,5 +1,6 @@
 import collections
 
+from .expression import Const
 from .model import Model
 from .objective import Maximize
 from .solver import ModelOptimizer
@@ -19,8 +20,6 @@ class KnapsackOptimizer(ModelOptimizer):
         super().__init__(**args)
         model = self._model
         values = tuple(values)
-        if not values:
-            return
         for value in values:
             if not isinstance(value, int):
                 raise TypeError("{} is not a valid value".format(value))
@@ -58,7 +57,7 @@ class KnapsackOptimizer(ModelOptimizer):
         variables = self._variables
         model = self._model
         solver = self._solver
-        objective = Maximize(sum(var * value for var, value in zip(variables, values)))
+        objective = Maximize(sum((var * value for var, value in zip(variables, values)), Const(0)))
         opt_result = solver.optimal_solution(model, objective)
         opt_solution = opt_result.solution
         if opt_solution is not None:
-- 
2.43.0


From 6ec40474c972e5b2c8484fd064dafa4f5f8ca2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:17 +0000
Subject: [PATCH 27/31] fix: do not compile constants and parameters that have
 no exact source

---
 src/satisfy/expression.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 3f7e723..8842c20 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -2,6 +2,7 @@ import abc
 import functools
 import itertools
 import logging
+import math
 
 
 __all__ = [
@@ -25,6 +26,13 @@ class EvaluationError(Exception):
     pass
 
 
+def _py_value(value):
+    # only values whose string is python source for the very same value
+    if not isinstance(value, int) and not (isinstance(value, float) and math.isfinite(value)):
+        raise ValueError("value {!r} cannot be used in python source".format(value))
+    return str(value)
+
+
 class Expression(abc.ABC):
     @abc.abstractmethod
     def free_vars(self, substitution):
@@ -230,7 +238,7 @@ class Const(Expression):
         return str(self._value)
 
     def py_expr(self):
-        return "({})".format(self)
+        return "({})".format(_py_value(self._value))
 
     def __add__(self, other):
         if self._value == 0:
@@ -691,10 +699,10 @@ class Accumulation(Collection):
             ", ".join(repr(e) for e in self),
             self._const)
 
-    def _as_str(self, op, fun, convert=str):
+    def _as_str(self, op, fun, convert=str, convert_const=str):
         values = []
         if self._const != self.__neutral_element__:
-            values.append(str(self._const))
+            values.append(convert_const(self._const))
         values.extend(convert(e) for e in self)
         if len(values) == 0:
             return str(self.__neutral_element__)
@@ -724,7 +732,7 @@ class Sum(Accumulation):
         return self._as_str(op='+', fun='sum')
 
     def py_expr(self):
-        return "({})".format(self._as_str(op='+', fun='__sum__', convert=lambda x: x.py_expr()))
+        return "({})".format(self._as_str(op='+', fun='__sum__', convert=lambda x: x.py_expr(), convert_const=_py_value))
 
 
 class Prod(Accumulation):
@@ -746,7 +754,7 @@ class Prod(Accumulation):
         return self._as_str(op='*', fun='prod')
 
     def py_expr(self):
-        return "({})".format(self._as_str(op='*', fun='__prod__', convert=lambda x: x.py_expr()))
+        return "({})".format(self._as_str(op='*', fun='__prod__', convert=lambda x: x.py_expr(), convert_const=_py_value))
 
 
 class Variable(Expression):
@@ -810,4 +818,4 @@ class Parameter(Variable):
         return self._value
 
     def py_expr(self):
-        return "({})".format(self._value)
+        return "({})".format(_py_value(self._value))
-- 
2.43.0


From 1e76f5f1e8b66b9263c315fc77a1e2eb7e623216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:58 +0000
Subject: [PATCH 28/31] fix: reject all-different constraints over parameters

---
 src/satisfy/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 1ae4029..6052675 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -117,6 +117,8 @@ class Model(object):
         for var_name in var_names:
             if var_name not in self._variables:
                 raise ValueError("constraint {} depends on undefined variable {}".format(constraint, var_name))
+            if self._variables[var_name].domain is None:
+                raise ValueError("constraint {} depends on {}, which is not a variable".format(constraint, var_name))
         self._constraints.append(constraint)
 
     def add_all_different_constraint(self, variables):
-- 
2.43.0


From bad6eed60ada84cb0ca40fff4a1fa334fca04038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:54 +0000
Subject: [PATCH 29/31] fix: do not round joined constants to integers

---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 8842c20..135d48d 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -317,12 +317,12 @@ class Const(Expression):
 
     def __and__(self, other):
         if isinstance(other, Const):
-            return int(self._value and other.value)
+            return self._value and other.value
         return And(self, other)
 
     def __or__(self, other):
         if isinstance(other, Const):
-            return int(self._value or other.value)
+            return self._value or other.value
         return Or(self, other)
 
 
-- 
2.43.0


From 725594243318a6d832dc63290b1922957c31d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:08 +0000
Subject: [PATCH 30/31] fix: divide by one like by any other number

---
 src/satisfy/expression.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 135d48d..9355799 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -121,9 +121,6 @@ class Expression(abc.ABC):
         return _make_prod(self, other)
 
     def __div__(self, other):
-        if isinstance(other, Const):
-            if other.value == 1:
-                return self
         return Div(self, other)
 
     def __mod__(self, other):
-- 
2.43.0


From 93fcc5b324a1bb28a25f63633f43bb63d97054a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:50 +0000
Subject: [PATCH 31/31] fix: a search keeps the timer it was started with

---
 src/satisfy/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index f3bd584..8a6633d 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -155,6 +155,7 @@ class Solver(object):
 
     def solve(self, model, **args):
         self._reset()
+        timer = self._timer
         timeout = args.get('timeout', self._timeout)
         if timeout is INFINITY:
             timeout = None
@@ -219,7 +220,6 @@ class Solver(object):
         elif var_selection_policy is VarSelectionPolicy.MAX_CONSTRAINT:
             var_names = tuple(sorted(var_names, key=lambda x: len(var_constraints[x]), reverse=True))
 
-        timer = self._timer
         timer.start()
         if not var_names:
             # nothing to assign: the empty substitution is the only solution
-- 
2.43.0

