From c0d581cc24fc332b5a54aedf8d7fb564830c0b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:19 +0000
Subject: [PATCH 01/34] fix: cdf_cut no longer always drops the value 0 from
 the listing

---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index a926bc0..7775c67 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -152,7 +152,7 @@ class RV(MetaRV):
         vals_probs[i] = (f'"{v}"', p) if v.is_number() else (f'{v}', p)
     if cdf_cut > 0:  # cut the bottom vals/probs and when stop total cut probs is less than cdf_cut
       sorted_vals_probs = sorted(vals_probs, key=lambda x: x[1])
-      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1]), initial=(0, 0)))
+      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1])))
       vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)
       vals_probs = list((v, p) for v, p in vals_probs if v not in vals_to_cut)
     return tuple(vals_probs)
-- 
2.43.0


From 3c013510b6849a2917e2cfb96ced2892149883be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:19 +0000
Subject: [PATCH 02/34] fix: standard deviation no longer loses all precision
 for large values

---
 src/randvar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index 7775c67..df5176e 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -125,11 +125,11 @@ class RV(MetaRV):
   def std(self):
     if self._get_sum_probs() == 0:  # if no probabilities, then std does not exist
       return None
-    EX2 = (self**2).mean()
     EX = self.mean()
-    assert EX2 is not None and EX is not None, 'mean must be defined to calculate std'
-    var = EX2 - EX**2  # E[X^2] - E[X]^2
-    return math.sqrt(var) if var >= 0 else 0
+    assert EX is not None, 'mean must be defined to calculate std'
+    s = self._get_sum_probs()
+    var = sum((p / s) * (v - EX)**2 for v, p in zip(self.vals, self.probs))  # E[(X - E[X])^2], no cancellation of large numbers
+    return math.sqrt(var)
 
   def filter(self, obj: T_ifsr):
     to_filter = set(factory.get_seq(obj))
-- 
2.43.0


From 5e26ec6d27ed12ecff8e2ab6c2a87abb526e56b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 03/34] fix: reducing probabilities no longer overflows when
 their total exceeds the float range

---
 src/randvar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index df5176e..2bb1fab 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -444,12 +444,12 @@ class _rdict:
     return d.to_tuples()
 
 
-def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: float = 10e30):
+def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: int = 10**31):
   sum_ = rv._get_sum_probs()
   if sum_ <= sum_limit:
     return rv
-  normalizing_const = int(10e10 * (sum_ // sum_limit))
-  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum{sum_:.1g}, NORMALIZING BY {normalizing_const:.1g} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
+  normalizing_const = 10**11 * (sum_ // sum_limit)  # only ints, sum_ may be too large for a float
+  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum 1e{math.log10(sum_):.1f}, NORMALIZING BY 1e{math.log10(normalizing_const):.1f} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
   # napkin math for the error. int(x) = x - x_ϵ where x_ϵ∈[0,1) is for the rounding error. Don't quote me on this math, not 100% sure.
   # P(x_i )=p_i/(∑p_i )  before normalization (p_i is an integer probability unbounded)
   # P(x_i )=p_i/(∑▒Nint(p_i/N) )  after normalization
-- 
2.43.0


From a0ca3cad27e176a0a3d32114571e9381fbc7c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 04/34] fix: position selection uses the running total of the
 weights without renormalising it

---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index 2bb1fab..cce5635 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -241,7 +241,7 @@ class RV(MetaRV):
   def _get_kth_order_statistic(self, draws: int, k: int):
     '''Get the k-th smallest value of n draws: k@RV where RV is n rolls of a die'''
     # k-th largest value of n draws: γ@RV where RV is n rolls of a die | FOR DISCRETE (what we need): https://en.wikipedia.org/wiki/Order_statistic#Dealing_with_discrete_variables
-    cdf = self.get_cdf().probs  # P(X <= x)
+    cdf = tuple(accumulate(self.probs))  # P(X <= x), on the same scale as self.probs
     sum_probs = self._get_sum_probs()
     p1 = tuple(cdf_x - p_x for p_x, cdf_x in zip(self.probs, cdf))  # P(X < x)
     p2 = self.probs  # P(X = x)
-- 
2.43.0


From 9f914ec2756d253b885467224fb36f3fd6c92078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 05/34] fix: expanding a pool of many dice no longer exceeds
 the recursion limit

---
 src/utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/utils.py b/src/utils.py
index 963b533..21cc285 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,3 +1,4 @@
+import math
 from typing import Iterable, TypeVar, Union
 
 
@@ -20,13 +21,8 @@ def flatten(items: T_s) -> T_flat:
             yield x
 
 
-_memoized = {}
-
-
 def factorial(n: int):
-    if n not in _memoized:
-        _memoized[n] = n * factorial(n - 1) if n > 1 else 1
-    return _memoized[n]
+    return math.factorial(n) if n > 1 else 1
 
 
 # to handle special cases of operators on int
-- 
2.43.0


From f01f54420842faed6f30682e78a77338e00d9c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 06/34] fix: the function depth is restored when a function
 raises

---
 src/decorators.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index e0cd5f8..a0ec766 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -150,9 +150,12 @@ def max_func_depth():
           print(msg)
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
-      SETTINGS['INTERNAL_CURR_DEPTH'] += 1
-      res = func(*args, **kwargs)
-      SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
+      depth = SETTINGS['INTERNAL_CURR_DEPTH']
+      SETTINGS['INTERNAL_CURR_DEPTH'] = depth + 1
+      try:
+        res = func(*args, **kwargs)
+      finally:
+        SETTINGS['INTERNAL_CURR_DEPTH'] = depth  # also when func raised or reset the settings
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
-- 
2.43.0


From 72bc959850c3670da5bc30ec74ebfc5e60b440c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 07/34] fix: rolling no longer changes the printed name of the
 given die and of earlier rolls

---
 src/roller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roller.py b/src/roller.py
index 5c13e7a..1f352c5 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -1,4 +1,5 @@
 from typing import Union, Iterable
+import copy
 import random
 import math
 
@@ -49,7 +50,7 @@ def roll(n: Union[T_ifsr, str], d: Union[T_ifsr, str, None] = None) -> MetaRV:
   if isinstance(n, MetaRV):
     assert isinstance(n, RV), 'n must be a RV if its MetaRV'
   # both arguments are now exactly int|Seq|RV
-  result = _roll(n, d)  # ROLL!
+  result = copy.copy(_roll(n, d))  # ROLL!  copy because the result may be d itself or memoized, neither may be relabeled
   result._str_LHS_RHS = _setup_str_LHS_RHS(n, d)  # only used for the __str__ method
   return result
 
-- 
2.43.0


From a52ba84e072f99b309a1dddc76397ff93980b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 08/34] fix: memoized rolls distinguish value types and the
 settings they were made under

---
 src/roller.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index 1f352c5..41399fc 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -4,6 +4,7 @@ import random
 import math
 
 from .typings import T_ifsr, MetaRV, MetaSeq
+from .settings import SETTINGS
 from . import factory
 from .randvar import RV
 from . import blackrv
@@ -89,14 +90,16 @@ def _roll_int_rv(n: int, d: RV) -> RV:
     return RV.from_const(0)
   if n == 1:
     return d
-  if (n, d.vals, d.probs) in _MEMOIZED_ROLLS:
-    return _MEMOIZED_ROLLS[(n, d.vals, d.probs)]
+  # everything the result depends on: equal values of different types (1 and 1.0) and different settings are different rolls
+  key = (n, d.vals, d.probs, tuple(type(v) for v in d.vals), SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])
+  if key in _MEMOIZED_ROLLS:
+    return _MEMOIZED_ROLLS[key]
   half = _roll_int_rv(n // 2, d)
   full = half + half
   if n % 2 == 1:
     full = full + d
   full.set_source(n, d)
-  _MEMOIZED_ROLLS[(n, d.vals, d.probs)] = full
+  _MEMOIZED_ROLLS[key] = full
   return full
 
 
-- 
2.43.0


From 86d90f514d24b8d8e5b7f6678b7a98ba5de5a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 09/34] fix: equal text values hash equal whatever the order
 they were added in

---
 src/string_rvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 26c2995..4f65614 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -99,7 +99,7 @@ class StringVal(MetaStr):
       return operator(float('inf'), other)
 
   def __hash__(self):
-    return hash((self.keys, tuple(self.data)))
+    return hash((self.keys, tuple(self.data[k] for k in self.keys)))
 
 
 class StringSeq(seq.Seq):
-- 
2.43.0


From 53242c24b86cc836f97af118173eeb5bd3f28df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 10/34] fix: sequences with texts support sum and access by
 position

---
 src/string_rvs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 4f65614..9a2d047 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -1,5 +1,6 @@
 
 from typing import Union
+import functools
 import operator as op
 
 from .typings import MetaStr, T_if
@@ -105,11 +106,18 @@ class StringVal(MetaStr):
 class StringSeq(seq.Seq):
   def __init__(self, source: tuple[T_ift, ...]):
     # do not call super().__init__ here
+    self._sum = None
+    self._one_indexed = 1
     source_lst: list[T_ift] = list(source)
     for i, x in enumerate(source_lst):
       if isinstance(x, str):
         source_lst[i] = StringVal.from_str(x)
     self._seq: tuple[T_ift, ...] = tuple(source_lst)
 
+  def sum(self):
+    if self._sum is None:  # start from the first element, 0 would become a part of the text
+      self._sum = functools.reduce(op.add, self._seq) if self._seq else 0
+    return self._sum
+
   def __iter__(self):
     return iter(self._seq)
-- 
2.43.0


From 34e3052ae7ef9047b589cf983ec720197a88f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 11/34] fix: a call may begin with another call

---
 src/parser/myparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index c11f818..7f19b0b 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -606,7 +606,7 @@ def p_call_elements_expr(p):
     call_elements : expression
                 | call_elements expression
     '''
-    if p[1].type == NodeType.CALL:  # recursive case
+    if len(p) == 3:  # recursive case
         wrapped = Node(NodeType.CALL_EXPR, p[2])
         p[0] = p[1].with_child(wrapped)
     else:
-- 
2.43.0


From 0e42c0e8dd26fea2b0b412c0aec87b315673e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 12/34] fix: compiled expressions keep the grouping of
 comparisons and powers

---
 src/parser/python_resolver.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 5186b6c..18f6c88 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -19,6 +19,8 @@ CONST = {
 }
 _FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
 
+_COMPARISONS = ('=', '==', '!=', '<', '>', '<=', '>=')  # python chains these, and gives them a lower precedence than & and |
+
 
 class PythonResolver:
     def __init__(self, root: Node, flags=None):
@@ -96,6 +98,13 @@ class PythonResolver:
         """Indent a string by self.indent_level spaces for each new line"""
         return '\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\n'))
 
+    def _resolve_operand(self, node: Union['Node', 'str'], wrap_ops, wrap_unary=False) -> str:
+        """Resolve an operand and wrap it in parentheses where python would otherwise group it differently than anydice"""
+        res = self.resolve_node(node)
+        if isinstance(node, Node) and ((node.type == NodeType.EXPR_OP and node.vals[0] in wrap_ops) or (wrap_unary and node.type == NodeType.UNARY)):
+            return f'({res})'
+        return res
+
     def resolve_node(self, node: Union['Node', 'str']) -> str:  # noqa: C901
         assert node is not None, 'Got None'
         assert not isinstance(node, str), f'resolver error, not sure what to do with a string [{node}]. All strings should be a Node ("string", str|strvar...)'
@@ -238,7 +247,11 @@ class PythonResolver:
             elif op == '&' or op == '|':
                 if self._COMPILER_FLAG_OPERATOR_ON_INT:
                     return f'{CONST["oplib"][op]}({self.resolve_node(left)}, {self.resolve_node(right)})'
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return f'{self._resolve_operand(left, _COMPARISONS)} {op} {self._resolve_operand(right, _COMPARISONS)}'
+            elif op in _COMPARISONS:
+                return f'{self._resolve_operand(left, _COMPARISONS)} {op} {self._resolve_operand(right, _COMPARISONS)}'
+            elif op == '**':
+                return f'{self._resolve_operand(left, ("^",), wrap_unary=True)} {op} {self.resolve_node(right)}'
             else:  # all other operators
                 return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
         elif node.type == NodeType.UNARY:
-- 
2.43.0


From 580415e7e8c4611aed7977b4e6944fa895370e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 13/34] fix: backslashes and control characters in strings are
 escaped

---
 src/parser/python_resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 18f6c88..fa4a3dc 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -116,6 +116,7 @@ class PythonResolver:
             str_list = []
             for x in node:
                 if isinstance(x, str):
+                    x = x.replace('\\', '\\\\').replace('\r', '\\r').replace('\0', '\\x00')  # characters that are not literal inside a python string
                     str_list.append(x.replace('{', '{{').replace('}', '}}'))  # escape curly braces
                 else:
                     str_list.append(self.resolve_node(x))
-- 
2.43.0


From 4465ce54227eb700b9dcdd5d0079b3b6ec4cf7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:49 +0000
Subject: [PATCH 14/34] fix: function names that mean something in python or to
 the compiled program no longer collide with it

---
 src/parser/python_resolver.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index fa4a3dc..e258b0d 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -1,3 +1,4 @@
+import keyword
 import logging
 from typing import Union
 
@@ -17,7 +18,7 @@ CONST = {
   'function library': ('absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X'),
   'oplib': {'@': 'myMatmul', 'len': 'myLen', '~': 'myInvert', '&': 'myAnd', '|': 'myOr'},
 }
-_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
+_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['seq'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set', 'len', 'vars', *keyword.kwlist))
 
 _COMPARISONS = ('=', '==', '!=', '<', '>', '<=', '>=')  # python chains these, and gives them a lower precedence than & and |
 
@@ -74,7 +75,7 @@ class PythonResolver:
                 assert f_name in self._defined_functions, f'Unknown function {f_name} not defined. Currently callable functions: {self._user__defined_functions}'
         assert self._output_counter > 0, 'No outputs made. Did you forget to call "output expr"?'
 
-        if any(f in self._defined_functions for f in _FUNCS_MAY_COLLIDE):  # collision -> reset with flag (if another collision then crash)
+        if any(f in _FUNCS_MAY_COLLIDE or f.isupper() for f in self._defined_functions):  # (only parameters, e.g. X_X, might be a variable) collision -> reset with flag (if another collision then crash)
             assert not self._COMPILER_FLAG_FUNC_LIB_CONFLICT, 'Function library conflict despite flag; this should not happen'
             self._COMPILER_FLAG_FUNC_LIB_CONFLICT = True
             self.reset_state()
@@ -98,6 +99,12 @@ class PythonResolver:
         """Indent a string by self.indent_level spaces for each new line"""
         return '\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\n'))
 
+    def _get_func_name(self, words) -> str:
+        name = '_'.join(words)
+        if self._COMPILER_FLAG_FUNC_LIB_CONFLICT and name not in CONST['function library']:
+            return 'f_' + name
+        return name
+
     def _resolve_operand(self, node: Union['Node', 'str'], wrap_ops, wrap_unary=False) -> str:
         """Resolve an operand and wrap it in parentheses where python would otherwise group it differently than anydice"""
         res = self.resolve_node(node)
@@ -162,8 +169,6 @@ class PythonResolver:
             nameargs, code = node
             assert isinstance(nameargs, Node) and nameargs.type == NodeType.FUNCNAME_DEF, f'Error in parsing fuction node: {node}'
             func_name, func_args, func_arg_names = [], [], []
-            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:
-                func_name.append('f')
             for x in nameargs:  # nameargs is a list of strings and expressions e.g. [attack 3d6 if crit 6d6 and double crit 12d6]
                 assert isinstance(x, str) or (isinstance(x, Node) and x.type in (NodeType.PARAM, NodeType.PARAM_WITH_DTYPE)), f'Error in parsing function node: {node}'
                 if isinstance(x, str):
@@ -184,7 +189,7 @@ class PythonResolver:
                 fix_dups_in_args(func_args, func_arg_names)
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 func_args.append('vars')
-            func_name = '_'.join(func_name)
+            func_name = self._get_func_name(func_name)
             self._defined_functions.add(func_name)
             self._user__defined_functions.append(func_name)
             func_decorator = CONST['func_decorator']
@@ -276,8 +281,6 @@ class PythonResolver:
             return f'{CONST["range"]}({l}, {r})'
         elif node.type == NodeType.CALL:
             name, args = [], []
-            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:
-                name.append('f')
             for x in node:
                 if isinstance(x, Node) and x.type == NodeType.CALL_EXPR:  # expression
                     args.append(self.resolve_node(x.val))
@@ -288,7 +291,7 @@ class PythonResolver:
                     assert False, f'Unknown node in call: {x}, parent: {node}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 args.append('vars')
-            name = '_'.join(name)
+            name = self._get_func_name(name)
             self._called_functions.add(name)
             return f'{name}({", ".join(args)})' if args else f'{name}()'
 
-- 
2.43.0


From f151241b901c19a97c7e0078664d950cf4265eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:49 +0000
Subject: [PATCH 15/34] fix: a function may repeat a parameter without a type

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index e258b0d..7259f50 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -308,5 +308,5 @@ def fix_dups_in_args(func_args, func_arg_names):
     N = len(func_args)
     for i in range(N - 1, -1, -1):  # only first is kept
         if func_arg_names.count(func_arg_names[i]) > 1:  # IS DUP
-            func_args[i] = f'dummy{i}: ' + func_args[i].split(': ')[1]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
+            func_args[i] = f'dummy{i}' + func_args[i][len(func_arg_names[i]):]  # keeps ": type" if there is one  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
             func_arg_names[i] = f'dummy{i}'
-- 
2.43.0


From bda8ae4eb241d748acca2a8c28f4c740eddce57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:49 +0000
Subject: [PATCH 16/34] fix: compiling no longer removes entries from the
 caller's flags

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 7259f50..d69f5a4 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -29,7 +29,7 @@ class PythonResolver:
         self.root = root
         self.reset_state()
 
-        flags = flags or {}
+        flags = dict(flags or {})  # copy, they are popped below
         # this flag is for a very nasty behaviour in anydice where a functions variables are a temporary copy of the callers variables; see https://anydice.com/program/394f0 and https://anydice.com/program/394f1 for the ugly behaviour
         # handling this is very ugly, we pass around a dictionary of all the code's variables and copy it for each function call
         # this makes the output code look unpleasant as every variable is accessed as dict['VAR'] instead of just VAR.
-- 
2.43.0


From d6a04f94be6ffa48bc60e5e457fa57ef7ff4f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:49 +0000
Subject: [PATCH 17/34] fix: numbers with leading zeros compile to valid python

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index d69f5a4..61b532d 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -135,7 +135,7 @@ class PythonResolver:
             return '{' + node.val + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
-            return str(node.val)
+            return node.val.lstrip('0') or '0'  # python does not allow leading zeros
         elif node.type == NodeType.NUMBER_DECIMAL:  # number in an expression
             val1, val2 = node
             assert isinstance(val1, str) and isinstance(val2, str), f'Expected str of a number, got {val1} and {val2}'
-- 
2.43.0


From 2bed66dd920c1bae0d13a0e989c4b88688bc7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:49 +0000
Subject: [PATCH 18/34] fix: only decimal digits 0-9 form a number

---
 src/parser/myparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index 7f19b0b..659777c 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -78,7 +78,7 @@ def t_ignore_COMMENT(t):
 
 
 def t_NUMBER(t):
-    r'\d+'
+    r'[0-9]+'
     # t.value = int(t.value)  # Convert the string to an integer
     return t
 
-- 
2.43.0


From cb590f3ec6656b5925d983fb5dfe1e3100d877e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 19/34] fix: selecting a digit of the result of a comparison

---
 src/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils.py b/src/utils.py
index 21cc285..50f3874 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -28,6 +28,7 @@ def factorial(n: int):
 # to handle special cases of operators on int
 def mymatmul(a, b):
     if isinstance(a, int) and isinstance(b, int):  # special case for int @ int
+        b = int(b)  # True/False from a comparison is 1/0
         return int(str(b)[a - 1]) if (0 <= a - 1 < len(str(b))) else 0
     return a @ b
 
-- 
2.43.0


From 2aef5ac84200bf7d228b0650e842d59907cfa83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 20/34] fix: unknown parameter types are rejected when
 compiling

---
 src/parser/python_resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 61b532d..8ec8dd3 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -181,7 +181,8 @@ class PythonResolver:
                 else:
                     arg_name, arg_dtype = x
                     assert isinstance(arg_dtype, str), f'Expected string for arg_dtype, got {arg_dtype}'
-                    arg_dtype = {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'}.get(arg_dtype, arg_dtype)
+                    assert arg_dtype in ('s', 'n', 'd'), f'Unknown parameter type {arg_dtype}, expected n, s, or d'
+                    arg_dtype = {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'}[arg_dtype]
                     func_args.append(f'{arg_name}: {arg_dtype}')
                     func_arg_names.append(arg_name)
                     func_name.append('X')
-- 
2.43.0


From 7f9b714bfd343bebff2b884bf2e6c6a876f54969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 21/34] fix: variables named like a parameter type no longer
 change the type of parameters

---
 src/parser/python_resolver.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 8ec8dd3..541874f 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -99,6 +99,9 @@ class PythonResolver:
         """Indent a string by self.indent_level spaces for each new line"""
         return '\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\n'))
 
+    def _get_var_name(self, name) -> str:
+        return 'v_' + name if name in ('T_N', 'T_S', 'T_D') else name  # variables must not replace the types in function definitions
+
     def _get_func_name(self, words) -> str:
         name = '_'.join(words)
         if self._COMPILER_FLAG_FUNC_LIB_CONFLICT and name not in CONST['function library']:
@@ -130,9 +133,10 @@ class PythonResolver:
             return 'f"' + ''.join(str_list) + '"'
         elif node.type == NodeType.STRVAR:
             assert isinstance(node.val, str), f'Expected string for strvar, got {node.val}'
+            var = self._get_var_name(node.val)
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
-                return "{vars['" + node.val + "']}"
-            return '{' + node.val + '}'
+                return "{vars['" + var + "']}"
+            return '{' + var + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
             return node.val.lstrip('0') or '0'  # python does not allow leading zeros
@@ -142,9 +146,10 @@ class PythonResolver:
             return f'{val1}.{val2}'
         elif node.type == NodeType.VAR:  # variable inside an expression
             assert isinstance(node.val, str), f'Expected str of a variable, got {node.val}'
+            var = self._get_var_name(node.val)
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
-                return f"vars['{node.val}']"
-            return node.val
+                return f"vars['{var}']"
+            return var
         elif node.type == NodeType.GROUP:  # group inside an expression, node.val is an expression
             return f'({self.resolve_node(node.val)})'
 
@@ -174,12 +179,13 @@ class PythonResolver:
                 if isinstance(x, str):
                     func_name.append(x)
                 elif x.type == NodeType.PARAM:
-                    arg_name = x.val
+                    arg_name = self._get_var_name(x.val)
                     func_args.append(arg_name)
                     func_arg_names.append(arg_name)
                     func_name.append('X')
                 else:
                     arg_name, arg_dtype = x
+                    arg_name = self._get_var_name(arg_name)
                     assert isinstance(arg_dtype, str), f'Expected string for arg_dtype, got {arg_dtype}'
                     assert arg_dtype in ('s', 'n', 'd'), f'Unknown parameter type {arg_dtype}, expected n, s, or d'
                     arg_dtype = {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'}[arg_dtype]
@@ -224,6 +230,7 @@ class PythonResolver:
         # LOOP
         elif node.type == NodeType.LOOP:
             var, over, code = node
+            var = self._get_var_name(var)
             res_header = f'for {var} in {self.resolve_node(over)}:'
             res_code = ''
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
@@ -234,6 +241,7 @@ class PythonResolver:
         # VARIABLE ASSIGNMENT
         elif node.type == NodeType.VAR_ASSIGN:
             var, val = node
+            var = self._get_var_name(var)
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return f"vars['{var}'] = {self.resolve_node(val)}"
             return f'{var} = {self.resolve_node(val)}'
-- 
2.43.0


From 8aee091e7053017eb56a85e1db5b562a6ca80b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:52 +0000
Subject: [PATCH 22/34] fix: selecting digits of the result of a comparison
 with a sequence of positions

---
 src/seq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seq.py b/src/seq.py
index 1360e05..00df728 100644
--- a/src/seq.py
+++ b/src/seq.py
@@ -52,6 +52,8 @@ class Seq(Iterable, MetaSeq):
       return other.__rmatmul__(self)
     # access at indices in other ( self @ other )
     if isinstance(other, (int, float)):
+      if isinstance(other, bool):
+        other = int(other)  # True/False from a comparison is 1/0
       other = Seq([int(d) for d in str(other)])  # SEQ @ int  thus convert int to sequence using base 10
     if not isinstance(other, Seq):
       other = Seq(other)
-- 
2.43.0


From 077b663f687e2c819d5d539d68f9997e531fb4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:09 +0000
Subject: [PATCH 23/34] fix: functions named print, exec and other words
 reserved by safe execution

---
 src/parser/python_resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 541874f..508619a 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -18,7 +18,8 @@ CONST = {
   'function library': ('absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X'),
   'oplib': {'@': 'myMatmul', 'len': 'myLen', '~': 'myInvert', '&': 'myAnd', '|': 'myOr'},
 }
-_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['seq'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set', 'len', 'vars', *keyword.kwlist))
+_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['seq'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set', 'len', 'vars', *keyword.kwlist,
+                          'print', 'printed', 'breakpoint', 'builtins', 'exec', 'eval'))  # not allowed as names by safe_exec
 
 _COMPARISONS = ('=', '==', '!=', '<', '>', '<=', '>=')  # python chains these, and gives them a lower precedence than & and |
 
-- 
2.43.0


From 14cb4902fd3e61adabc614891b3712dc7a0d236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:59 +0000
Subject: [PATCH 24/34] fix: adding or comparing a text sequence on the left of
 a die or sequence

---
 src/string_rvs.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 9a2d047..e73b3b4 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -3,7 +3,7 @@ from typing import Union
 import functools
 import operator as op
 
-from .typings import MetaStr, T_if
+from .typings import MetaRV, MetaSeq, MetaStr, T_if
 from . import seq
 
 T_ift = Union[T_if, str, 'StringVal']
@@ -34,6 +34,8 @@ class StringVal(MetaStr):
     return len(self.keys) == 1 and re.match(r'^-?\d+(\.\d+)?$', self.keys[0])
 
   def __add__(self, other):
+    if isinstance(other, (MetaRV, MetaSeq)):  # let the die or sequence handle the operation
+      return NotImplemented
     if not isinstance(other, StringVal):
       other = StringVal.from_const(other)
     newdict = self.data.copy()
@@ -76,12 +78,16 @@ class StringVal(MetaStr):
   def __eq__(self, other):
     if isinstance(other, StringVal):
       return self.keys == other.keys and self.data == other.data
+    elif isinstance(other, (MetaRV, MetaSeq)):
+      return NotImplemented
     else:
       return False
 
   def __ne__(self, other):
     if isinstance(other, StringVal):
       return self.keys != other.keys or self.data != other.data
+    elif isinstance(other, (MetaRV, MetaSeq)):
+      return NotImplemented
     else:
       return True
 
@@ -96,6 +102,8 @@ class StringVal(MetaStr):
         if self.data[self.keys[i]] != other.data[other.keys[i]]:
           return operator(self.data[self.keys[i]], other.data[other.keys[i]])
         i += 1
+    elif isinstance(other, (MetaRV, MetaSeq)):
+      return NotImplemented
     else:
       return operator(float('inf'), other)
 
-- 
2.43.0


From d962fa009367b1125b7ea6e0a2ae78f6f05151a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:13 +0000
Subject: [PATCH 25/34] fix: fractional numbers given for sequence parameters
 become sequences

---
 src/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decorators.py b/src/decorators.py
index a0ec766..d0a12d8 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -73,7 +73,7 @@ def anydice_type_casting(verbose=False):  # noqa: C901
         elif expected_type == T_N and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
           continue
-        elif expected_type == T_S and isinstance(arg_val, int):
+        elif expected_type == T_S and isinstance(arg_val, (int, float)):
           new_val = get_seq([arg_val])
         elif expected_type == T_S and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
-- 
2.43.0


From 98489b3bdd7899f07219079b117ed6f6cdfe37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:59 +0000
Subject: [PATCH 26/34] fix: texts taken out of a sequence can be output and
 rolled

---
 src/factory.py | 4 ++--
 src/roller.py  | 7 +++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/factory.py b/src/factory.py
index 996d97e..c7ca293 100644
--- a/src/factory.py
+++ b/src/factory.py
@@ -1,6 +1,6 @@
 from typing import Iterable, Union
 
-from .typings import T_if, T_ifsr, MetaRV, MetaSeq
+from .typings import T_if, T_ifsr, MetaRV, MetaSeq, MetaStr
 from . import utils
 from . import seq
 from . import string_rvs
@@ -27,7 +27,7 @@ def get_seq(*source: T_ifsrt, _INTERNAL_SEQ_VALUE=None) -> 'seq.Seq':
 
 
 def get_rv(source: T_ifsr) -> 'randvar.RV':
-  if isinstance(source, (int, float, bool)):
+  if isinstance(source, (int, float, bool, MetaStr)):
     source = randvar.RV.from_const(source)
   elif isinstance(source, Iterable):
     source = randvar.RV.from_seq(source)
diff --git a/src/roller.py b/src/roller.py
index 41399fc..07253e5 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -3,7 +3,7 @@ import copy
 import random
 import math
 
-from .typings import T_ifsr, MetaRV, MetaSeq
+from .typings import T_ifsr, MetaRV, MetaSeq, MetaStr
 from .settings import SETTINGS
 from . import factory
 from .randvar import RV
@@ -23,11 +23,10 @@ def roll(n: Union[T_ifsr, str], d: Union[T_ifsr, str, None] = None) -> MetaRV:
   if isinstance(n, str):  # either rolL('ndm') or roll('dm')
     assert d is None, 'if n is a string, then d must be None'
     n, d = _parse_from_str(n)
-  if isinstance(d, str):
-    d = factory.get_seq([d])
-
   if d is None:  # if only one argument, then roll it as a dice once
     n, d = 1, n
+  if isinstance(d, (str, MetaStr)):
+    d = factory.get_seq([d])
 
   # handle floats
   if isinstance(n, float):
-- 
2.43.0


From 972077ac21f6f48a2208ae511bda098dc82a0519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:27 +0000
Subject: [PATCH 27/34] fix: a cut listing may not drop a different text that
 is shown the same

---
 src/randvar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index cce5635..c03f2e2 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -151,10 +151,10 @@ class RV(MetaRV):
       if isinstance(v, MetaStr):
         vals_probs[i] = (f'"{v}"', p) if v.is_number() else (f'{v}', p)
     if cdf_cut > 0:  # cut the bottom vals/probs and when stop total cut probs is less than cdf_cut
-      sorted_vals_probs = sorted(vals_probs, key=lambda x: x[1])
-      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1])))
-      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)
-      vals_probs = list((v, p) for v, p in vals_probs if v not in vals_to_cut)
+      sorted_inds_probs = sorted(((i, p) for i, (_, p) in enumerate(vals_probs)), key=lambda x: x[1])
+      accumelated_probs = tuple(accumulate(sorted_inds_probs, lambda x, y: (y[0], x[1] + y[1])))
+      inds_to_cut = set(i for i, p in accumelated_probs if p < cdf_cut)  # not by value, different texts may be shown the same
+      vals_probs = list(vp for i, vp in enumerate(vals_probs) if i not in inds_to_cut)
     return tuple(vals_probs)
 
   def get_cdf(self):
-- 
2.43.0


From 299b036827154d4d401cc3b931a98421b790e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:14 +0000
Subject: [PATCH 28/34] fix: a text face named like the internal key of the
 number part

---
 src/string_rvs.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index e73b3b4..1cb2535 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -9,12 +9,16 @@ from . import seq
 T_ift = Union[T_if, str, 'StringVal']
 
 
-_CONST_COEF = '_UNIQUE_STRING'
+_CONST_COEF = None  # key of the number in a StringVal; not a str, so no text can be mistaken for it
+
+
+def _order(key):
+  return ('_UNIQUE_STRING', 0) if key is _CONST_COEF else (key, 1)
 
 
 class StringVal(MetaStr):
   def __init__(self, keys: tuple[str, ...], pairs: dict[str, T_if]):
-    self.keys = tuple(sorted(keys))
+    self.keys = tuple(sorted(keys, key=_order))
     self.data = pairs
 
   @staticmethod
@@ -31,7 +35,7 @@ class StringVal(MetaStr):
 
   def is_number(self):
     import re  # noqa
-    return len(self.keys) == 1 and re.match(r'^-?\d+(\.\d+)?$', self.keys[0])
+    return len(self.keys) == 1 and self.keys[0] is not _CONST_COEF and re.match(r'^-?\d+(\.\d+)?$', self.keys[0])
 
   def __add__(self, other):
     if isinstance(other, (MetaRV, MetaSeq)):  # let the die or sequence handle the operation
@@ -50,7 +54,7 @@ class StringVal(MetaStr):
     r = []
     last_coeff = ''
     for key in self.keys:
-      if key == _CONST_COEF:  # empty string represents a number
+      if key is _CONST_COEF:  # empty string represents a number
         last_coeff = ' + ' + str(self.data[key])
         continue
       elif self.data[key] == 1:  # coefficient 1 is not shown
@@ -98,7 +102,7 @@ class StringVal(MetaStr):
         if i >= len(self.keys) or i >= len(other.keys):
           return operator(len(self.keys), len(other.keys))
         if self.keys[i] != other.keys[i]:
-          return operator(self.keys[i], other.keys[i])
+          return operator(_order(self.keys[i]), _order(other.keys[i]))
         if self.data[self.keys[i]] != other.data[other.keys[i]]:
           return operator(self.data[self.keys[i]], other.data[other.keys[i]])
         i += 1
-- 
2.43.0


From 11878898eb7ca9c58abd28437966834678bf87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:10 +0000
Subject: [PATCH 29/34] fix: selecting several positions honours the position
 order

---
 src/randvar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/randvar.py b/src/randvar.py
index c03f2e2..e2219d2 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -236,6 +236,8 @@ class RV(MetaRV):
       k = other._seq[0]
       assert isinstance(k, int), 'unsupported operand type(s) for @: float and RV'
       return self._source_die._get_kth_order_statistic(self._source_roll, k)
+    if SETTINGS['position order'] == 'lowest first':  # _sum_at counts from the highest
+      other = factory.get_seq([len(self) + 1 - i for i in other])
     return _sum_at(self, other)  # type: ignore  anydice_casting
 
   def _get_kth_order_statistic(self, draws: int, k: int):
-- 
2.43.0


From fa6cb43841e6881fe9b528accb5790006256da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:23 +0000
Subject: [PATCH 30/34] fix: highest, lowest and middle N of dice do not depend
 on the position order

---
 src/funclib.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/funclib.py b/src/funclib.py
index 8970060..54010c6 100644
--- a/src/funclib.py
+++ b/src/funclib.py
@@ -61,14 +61,22 @@ def _explode_helper(N: T_N, MAX: T_N, ORIG_DIE: T_D, depth):
     return N
 
 
+def _at_from_highest(FROM: int, TO: int, DICE):
+    '''the positions FROM..TO of DICE counted from the highest, whatever the position order setting'''
+    positions = range(FROM, TO + 1)
+    if SETTINGS['position order'] == 'lowest first':
+        positions = [len(DICE) + 1 - i for i in positions]
+    return Seq(positions) @ DICE
+
+
 @anydice_type_casting()
 def highest_N_of_D(NUMBER: T_N, DICE: T_D, *args, **kwargs):
-    return Seq(range(1, NUMBER + 1)) @ DICE
+    return _at_from_highest(1, NUMBER, DICE)
 
 
 @anydice_type_casting()
 def lowest_N_of_D(NUMBER: T_N, DICE: T_D, *args, **kwargs):
-    return Seq(range((len(DICE) - NUMBER + 1), len(DICE) + 1)) @ DICE
+    return _at_from_highest(len(DICE) - NUMBER + 1, len(DICE), DICE)
 
 
 @anydice_type_casting()
@@ -77,11 +85,12 @@ def middle_N_of_D(NUMBER: T_N, DICE: T_D, *args, **kwargs):
         return DICE
 
     if NUMBER == 1:
-        return (1 + (len(DICE) - 1) // 2) @ DICE
+        FROM = 1 + (len(DICE) - 1) // 2
+        return _at_from_highest(FROM, FROM, DICE)
 
     FROM = 1 + (len(DICE) - NUMBER) // 2
     TO = FROM + NUMBER - 1
-    return Seq(range(FROM, TO + 1)) @ DICE
+    return _at_from_highest(FROM, TO, DICE)
 
 
 @anydice_type_casting()
-- 
2.43.0


From 31d44b46424af59a604aeeddb85821f8fe53f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:47 +0000
Subject: [PATCH 31/34] fix: line numbers in compile errors after comments,
 unclosed strings and earlier programs

---
 src/parser/myparser.py       | 3 ++-
 src/parser/parse_and_exec.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index 659777c..5ff7763 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -74,7 +74,7 @@ t_UPPERNAME = r'[A-Z_][A-Z_]*'
 def t_ignore_COMMENT(t):
     r'\\(.|\n)*?\\'
     # comment is any number of chars (including new lines) begining with \ and ending with \
-    pass
+    t.lexer.lineno += t.value.count('\n')
 
 
 def t_NUMBER(t):
@@ -118,6 +118,7 @@ def t_INITIAL_ignore_newline(t):
 def t_ANY_error(t):
     col_pos = find_column(t.lexer.lexdata, t.lexpos)
     t.lexer.LEX_ILLEGAL_CHARS.append((t.value[0], t.lexpos, t.lexer.lineno, col_pos))
+    t.lexer.lineno += t.value[0] == '\n'  # a string that is not closed on its line
     t.lexer.skip(1)
 
 
diff --git a/src/parser/parse_and_exec.py b/src/parser/parse_and_exec.py
index a60651b..89ada2a 100644
--- a/src/parser/parse_and_exec.py
+++ b/src/parser/parse_and_exec.py
@@ -15,6 +15,7 @@ def build_lex_yacc(debug=False):
 
 
 def do_lex(to_parse, lexer, verbose_lex=False):
+  lexer.lineno = 1
   lexer.input(to_parse)  # feed the lexer
   tokens = [x for x in lexer]
   if verbose_lex:
@@ -24,6 +25,7 @@ def do_lex(to_parse, lexer, verbose_lex=False):
 
 
 def do_yacc(to_parse, lexer, yaccer, verbose_yacc=False):
+  lexer.lineno = 1  # the lexer may have been used before
   yacc_ret: Node = yaccer.parse(to_parse, lexer=lexer)  # generate the AST
   if verbose_yacc and yacc_ret:
     for x in yacc_ret:
-- 
2.43.0


From b396fde3d1779d9fa9ec24f7c5244f64d1a6b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:47 +0000
Subject: [PATCH 32/34] fix: safe execution could be escaped through functools

---
 src/parser/parse_and_exec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/parse_and_exec.py b/src/parser/parse_and_exec.py
index 89ada2a..8658902 100644
--- a/src/parser/parse_and_exec.py
+++ b/src/parser/parse_and_exec.py
@@ -94,6 +94,8 @@ def safe_exec(r, global_vars=None):
       logger.error('RestrictedPython not installer. Run `pip install RestrictedPython`')
       logger.exception('code did not execute')
       return []
+  import functools
+  from types import SimpleNamespace
   import RestrictedPython as ResPy
   import RestrictedPython.Guards as Guards
   import RestrictedPython.Eval as Eval
@@ -118,6 +120,8 @@ def safe_exec(r, global_vars=None):
 
 
     **_get_lib(),
+    # without the functions that read or write attributes by name or evaluate annotations, which would bypass the guards above
+    'functools': SimpleNamespace(**{k: getattr(functools, k) for k in functools.__all__ if k not in ('update_wrapper', 'wraps', 'singledispatch', 'singledispatchmethod')}),
     'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),
     **(global_vars or {})
   }
-- 
2.43.0


From f2d862d444eb3d1abae2c7c68e5b94074a875833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:00 +0000
Subject: [PATCH 33/34] fix: the function depth is counted per thread

---
 src/decorators.py | 11 +++++++----
 src/settings.py   |  3 +--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index d0a12d8..d75d93e 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -1,6 +1,7 @@
 import inspect
 import logging
 import math
+import threading
 from itertools import product
 from typing import Iterable, Union
 
@@ -12,6 +13,8 @@ from . import blackrv
 
 logger = logging.getLogger(__name__)
 
+_CALLS = threading.local()  # depth: number of functions the current thread is in
+
 
 def anydice_casting():
   def wrapper(func):
@@ -143,19 +146,19 @@ def max_func_depth():
   # decorator to limit the depth of the function calls
   def decorator(func):
     def wrapper(*args, **kwargs):
-      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:
+      depth = getattr(_CALLS, 'depth', 0)
+      if depth >= SETTINGS['maximum function depth']:
         msg = 'The maximum function depth was exceeded, results are truncated.'
         if not SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED']:
           logger.warning(msg)
           print(msg)
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
-      depth = SETTINGS['INTERNAL_CURR_DEPTH']
-      SETTINGS['INTERNAL_CURR_DEPTH'] = depth + 1
+      _CALLS.depth = depth + 1
       try:
         res = func(*args, **kwargs)
       finally:
-        SETTINGS['INTERNAL_CURR_DEPTH'] = depth  # also when func raised or reset the settings
+        _CALLS.depth = depth  # also when func raised
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
diff --git a/src/settings.py b/src/settings.py
index 43562be..08263aa 100644
--- a/src/settings.py
+++ b/src/settings.py
@@ -6,8 +6,7 @@ DEFAULT_SETTINGS = {
   'RV_IGNORE_ZERO_PROBS': False,  # if True, then RV remove P=0 vals when creating RVs (False by default in anydice)
   'DEFAULT_OUTPUT_WIDTH': 180,  # default width of output
   'DEFAULT_PRINT_FN': print,  # default print function
-  'INTERNAL_CURR_DEPTH': 0,  # internal use only, for max_func_depth decorator
-  'INTERNAL_CURR_DEPTH_WARNING_PRINTED': False,  # used with the above
+  'INTERNAL_CURR_DEPTH_WARNING_PRINTED': False,  # internal use only, for max_func_depth decorator
 
   'position order': 'highest first',  # 'highest first' or 'lowest first'
   'explode depth': 2,  # can only be set to a positive integer (the default is 2)
-- 
2.43.0


From b137175609c3e4cc5df04b96a21c60e4df7ced1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 34/34] fix: mean of a die with fractional values and weights
 beyond the range of float

---
 src/randvar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index e2219d2..7f4e91d 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -120,7 +120,11 @@ class RV(MetaRV):
   def mean(self):
     if self._get_sum_probs() == 0:
       return None
-    return sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()
+    s = self._get_sum_probs()
+    try:
+      return sum(v * p for v, p in zip(self.vals, self.probs)) / s
+    except OverflowError:  # a fractional value times a weight beyond the range of float
+      return sum(v * (p / s) for v, p in zip(self.vals, self.probs))
 
   def std(self):
     if self._get_sum_probs() == 0:  # if no probabilities, then std does not exist
-- 
2.43.0

