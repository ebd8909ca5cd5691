From 3159b5a3317a3c970b82889f661156ef09952196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 01/43] fix: allow an expression to be used for several
 operands of one operation

---
 omtools/core/variable.py | 42 ++++++++++++++++++++++++++++++++++++++++
 omtools/std/average.py   |  3 ++-
 omtools/std/cross.py     |  3 ++-
 omtools/std/dot.py       |  3 ++-
 omtools/std/if_else.py   |  3 ++-
 omtools/std/inner.py     |  3 ++-
 omtools/std/matmat.py    |  3 ++-
 omtools/std/matvec.py    |  3 ++-
 omtools/std/max.py       |  3 ++-
 omtools/std/min.py       |  3 ++-
 omtools/std/outer.py     |  3 ++-
 omtools/std/sum.py       |  3 ++-
 12 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 024e921..674f3af 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -20,6 +20,44 @@ def slice_to_tuple(key: slice, size: int) -> tuple:
     return (key.start, key.stop, key.step)
 
 
+def distinct_operands(*operands):
+    """
+    Replace repeated operands with copies. An OpenMDAO ``Component``
+    cannot declare the same input more than once, so an operation that
+    uses an expression for more than one of its arguments (e.g.
+    ``x * x``) needs a separate name for each argument.
+
+    Parameters
+    ----------
+    operands: Variable
+        Operands of an operation
+
+    Returns
+    -------
+    list[Variable]
+        Operands, no two of which have the same name
+    """
+    distinct = []
+    names = set()
+    for expr in operands:
+        if isinstance(expr, Variable):
+            if expr.name in names:
+                expr = _copy_expression(expr)
+            names.add(expr.name)
+        distinct.append(expr)
+    return distinct
+
+
+def _copy_expression(expr):
+    from omtools.comps.pass_through_comp import PassThroughComp
+    out = Variable()
+    out.shape = expr.shape
+    out.val = expr.val
+    out.add_dependency_node(expr)
+    out.build = lambda: PassThroughComp(expr=expr, name=out.name)
+    return out
+
+
 class Variable():
     """
     The ``Variable`` class is a base type for nodes in a Directed
@@ -406,6 +444,7 @@ class ElementwiseAddition(Variable):
     addition
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -469,6 +508,7 @@ class ElementwiseSubtraction(Variable):
     subtraction
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -536,6 +576,7 @@ class ElementwiseMultiplication(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -605,6 +646,7 @@ class ElementwiseDivision(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
diff --git a/omtools/std/average.py b/omtools/std/average.py
index 4ce82dc..b1b9510 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -1,6 +1,6 @@
 from omtools.comps.single_tensor_average_comp import SingleTensorAverageComp
 from omtools.comps.multiple_tensor_average_comp import MultipleTensorAverageComp
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -22,6 +22,7 @@ def average(*operands: List[Variable], axes=None):
 
     '''
 
+    operands = distinct_operands(*operands)
     out = Variable()
     for expr in operands:
         if not isinstance(expr, Variable):
diff --git a/omtools/std/cross.py b/omtools/std/cross.py
index c235144..d5bf193 100644
--- a/omtools/std/cross.py
+++ b/omtools/std/cross.py
@@ -1,5 +1,5 @@
 from omtools.comps.cross_product_comp import CrossProductComp
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 
 
 def cross(in1, in2, axis: int):
@@ -21,6 +21,7 @@ def cross(in1, in2, axis: int):
 
     if not (isinstance(in1, Variable) and isinstance(in2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    in1, in2 = distinct_operands(in1, in2)
     out = Variable()
     out.add_dependency_node(in1)
     out.add_dependency_node(in2)
diff --git a/omtools/std/dot.py b/omtools/std/dot.py
index bd5f73e..3464b1c 100644
--- a/omtools/std/dot.py
+++ b/omtools/std/dot.py
@@ -1,7 +1,7 @@
 from omtools.comps.tensor_dot_product_comp import TensorDotProductComp
 from omtools.comps.vector_inner_product_comp import VectorInnerProductComp
 
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -25,6 +25,7 @@ def dot(expr1: Variable, expr2: Variable, axis=None):
 
     if not (isinstance(expr1, Variable) and isinstance(expr2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out = Variable()
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 29b9c51..c3a8ac9 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -1,4 +1,4 @@
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 # from omtools.comps.conditional_component import ConditionalComponent
 from openmdao.api import ExplicitComponent
 import numpy as np
@@ -64,6 +64,7 @@ def if_else(
             "Variable shapes must be the same for Variable objects for both branches of execution"
         )
 
+    condition, expr_true, expr_false = distinct_operands(condition, expr_true, expr_false)
     out = Variable()
     out.add_dependency_node(condition)
     out.add_dependency_node(expr_true)
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index ac0b582..66bfb86 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -1,7 +1,7 @@
 from omtools.comps.tensor_inner_product_comp import TensorInnerProductComp
 from omtools.comps.vector_inner_product_comp import VectorInnerProductComp
 
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -26,6 +26,7 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
     elif not isinstance(expr2, Variable):
         raise TypeError(expr2, " is not an Variable object")
 
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out = Variable()
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 9f56e3c..bf8eb76 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -1,5 +1,5 @@
 from omtools.comps.matmat_comp import MatMatComp
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -21,6 +21,7 @@ def matmat(mat1, mat2):
 
     if not (isinstance(mat1, Variable) and isinstance(mat2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    mat1, mat2 = distinct_operands(mat1, mat2)
     out = Variable()
     out.add_dependency_node(mat1)
     out.add_dependency_node(mat2)
diff --git a/omtools/std/matvec.py b/omtools/std/matvec.py
index 0ab6651..0752141 100644
--- a/omtools/std/matvec.py
+++ b/omtools/std/matvec.py
@@ -1,5 +1,5 @@
 from omtools.comps.matvec_comp import MatVecComp
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -20,6 +20,7 @@ def matvec(mat1, vec1):
     '''
     if not (isinstance(mat1, Variable) and isinstance(vec1, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    mat1, vec1 = distinct_operands(mat1, vec1)
     out = Variable()
     out.add_dependency_node(mat1)
     out.add_dependency_node(vec1)
diff --git a/omtools/std/max.py b/omtools/std/max.py
index 0438e98..145d2a9 100644
--- a/omtools/std/max.py
+++ b/omtools/std/max.py
@@ -2,7 +2,7 @@ from omtools.comps.axiswise_max_comp import AxisMaxComp
 from omtools.comps.elementwise_max_comp import ElementwiseMaxComp
 from omtools.comps.scalar_extremum_comp import ScalarExtremumComp
 
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 
 import numpy as np
 
@@ -25,6 +25,7 @@ def max(*exprs, axis=None, rho=20.):
         the maximum is 
     '''
 
+    exprs = distinct_operands(*exprs)
     out = Variable()
     for expr in exprs:
         if not isinstance(expr, Variable):
diff --git a/omtools/std/min.py b/omtools/std/min.py
index 9f43b0a..625a811 100644
--- a/omtools/std/min.py
+++ b/omtools/std/min.py
@@ -2,7 +2,7 @@ from omtools.comps.axiswise_min_comp import AxisMinComp
 from omtools.comps.elementwise_min_comp import ElementwiseMinComp
 from omtools.comps.scalar_extremum_comp import ScalarExtremumComp
 
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 
 import numpy as np
 
@@ -25,6 +25,7 @@ def min(*exprs, axis=None, rho=20.):
         the minimum is 
     '''
 
+    exprs = distinct_operands(*exprs)
     out = Variable()
     for expr in exprs:
         if not isinstance(expr, Variable):
diff --git a/omtools/std/outer.py b/omtools/std/outer.py
index ebbed1f..6de2a8b 100644
--- a/omtools/std/outer.py
+++ b/omtools/std/outer.py
@@ -1,7 +1,7 @@
 from omtools.comps.tensor_outer_product_comp import TensorOuterProductComp
 from omtools.comps.vector_outer_product_comp import VectorOuterProductComp
 
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -23,6 +23,7 @@ def outer(expr1: Variable, expr2: Variable):
         raise TypeError(expr1, " is not an Variable object")
     elif not isinstance(expr2, Variable):
         raise TypeError(expr2, " is not an Variable object")
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out = Variable()
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index 9380911..cf520a1 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -1,6 +1,6 @@
 from omtools.comps.single_tensor_sum_comp import SingleTensorSumComp
 from omtools.comps.multiple_tensor_sum_comp import MultipleTensorSumComp
-from omtools.core.variable import Variable
+from omtools.core.variable import Variable, distinct_operands
 from typing import List
 import numpy as np
 
@@ -20,6 +20,7 @@ def sum(*summands: List[Variable], axes=None):
 
     '''
 
+    summands = distinct_operands(*summands)
     out = Variable()
     for expr in summands:
         if not isinstance(expr, Variable):
-- 
2.43.0


From 8ec1a14d0f2301c1ad31f06230e37ba3c59cc637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 02/43] fix: compute sech and its derivative for inputs of rank
 above one

---
 omtools/comps/sechcomp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/sechcomp.py b/omtools/comps/sechcomp.py
index 06eca43..482aeda 100644
--- a/omtools/comps/sechcomp.py
+++ b/omtools/comps/sechcomp.py
@@ -43,13 +43,13 @@ class SechComp(ExplicitComponent):
     def compute(self, inputs, outputs):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        outputs[out_name] = 1.0 / np.cosh(inputs[in_name]).flatten()
+        outputs[out_name] = 1.0 / np.cosh(inputs[in_name])
 
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = -1.0 * np.tanh(
-            inputs[in_name]) * (1.0 / np.cosh(inputs[in_name])).flatten()
+        partials[out_name, in_name] = (-1.0 * np.tanh(
+            inputs[in_name]) * (1.0 / np.cosh(inputs[in_name]))).flatten()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 592c96c7fe3c49ac84df38b8da76e78e1b89b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 03/43] fix: leave constant coefficients unchanged when
 differentiating products

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 65d02b5..66bba58 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -76,10 +76,6 @@ class PowerCombinationComp(ArrayExplicitComponent):
         powers = self.options['powers']
         coeff = self.options['coeff']
 
-        value = coeff
-        for in_name, power in zip(in_names, powers):
-            value *= inputs[in_name]**power
-
         for in_name in in_names:
             deriv = coeff * np.ones(self.options['shape'])
             for in_name2, power in zip(in_names, powers):
-- 
2.43.0


From 3e324d2ef33f4401bbc53107f3e624e93b8f4527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 04/43] fix: allow division of an expression by a constant
 array

---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 674f3af..7eb6ca6 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -689,7 +689,7 @@ class ElementwiseDivision(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
-            if expr2 == 0:
+            if np.any(expr2 == 0):
                 raise ValueError("Cannot divide by zero")
 
             self.shape = expr1.shape
-- 
2.43.0


From e723af8f68b2a43d36f6491bc4d615896c376d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 05/43] fix: support constant arrays on the left hand side of
 arithmetic operators

---
 omtools/core/variable.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 7eb6ca6..4a6c029 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -72,6 +72,10 @@ class Variable():
     # A counter for all Variable objects created so far
     _count = -1
 
+    # Let reflected operators handle constant arrays on the left hand
+    # side, instead of NumPy broadcasting over the entries of the array
+    __array_ufunc__ = None
+
     def __pos__(self):
         return self
 
@@ -112,7 +116,7 @@ class Variable():
         """
         Represent addition between two expressions
         """
-        if isinstance(other, numbers.Number) == False:
+        if not isinstance(other, (numbers.Number, np.ndarray)):
             raise TypeError(other, " is not an Variable object or literal")
         return ElementwiseAddition(other, self)
 
@@ -120,7 +124,7 @@ class Variable():
         """
         Represent subtraction between two expressions
         """
-        if isinstance(other, numbers.Number) == False:
+        if not isinstance(other, (numbers.Number, np.ndarray)):
             raise TypeError(other, " is not an Variable object or literal")
         return ElementwiseSubtraction(other, self)
 
@@ -128,7 +132,7 @@ class Variable():
         """
         Represent multiplication between two expressions
         """
-        if isinstance(other, numbers.Number) == False:
+        if not isinstance(other, (numbers.Number, np.ndarray)):
             raise TypeError(other, " is not an Variable or a literal value")
         return ElementwiseMultiplication(other, self)
 
@@ -136,7 +140,7 @@ class Variable():
         """
         Represent division between two expressions
         """
-        if isinstance(other, numbers.Number) == False:
+        if not isinstance(other, (numbers.Number, np.ndarray)):
             raise TypeError(other, " is not an Variable or a literal value")
         return ElementwiseDivision(other, self)
 
-- 
2.43.0


From b01039ddbf6b0194c48fc8fcd951da87462737b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 06/43] fix: report division by zero as an error instead of
 ending the process

---
 .../comps/arithmetic_comps/power_combination_comp.py   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 66bba58..ee36e68 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from openmdao.api import AnalysisError
+
 from omtools.comps.array_explicit_component import ArrayExplicitComponent
 from omtools.utils.process_options import name_types, get_names_list
 from omtools.utils.process_options import scalar_types, get_scalars_list
@@ -64,10 +66,10 @@ class PowerCombinationComp(ArrayExplicitComponent):
 
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
-            if np.any(inputs[in_name] == 0) and power < 0:
-                print(in_name)
-                print(inputs[in_name])
-                exit()
+            if np.any((inputs[in_name] == 0) & (np.asarray(power) < 0)):
+                raise AnalysisError(
+                    "Division by zero in computation of '{}': '{}' = {}".
+                    format(out_name, in_name, inputs[in_name]))
             outputs[out_name] *= inputs[in_name]**power
 
     def compute_partials(self, inputs, partials):
-- 
2.43.0


From f6d9f4f26c42358487d5c68ecff3f8dcda821eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 07/43] fix: raise an expression to each of an array of
 constant powers

---
 omtools/core/variable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 4a6c029..16731a8 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -737,7 +737,7 @@ class ElementwisePower(Variable):
                 powers=expr2,
                 in_vals=[expr1.val],
             )
-        if isinstance(expr2, np.ndarray):
+        elif isinstance(expr2, np.ndarray):
             if expr1.shape != expr2.shape:
                 raise ValueError("Shape mismatch between base and power array")
             self.shape = expr1.shape
@@ -747,14 +747,14 @@ class ElementwisePower(Variable):
                 shape=expr1.shape,
                 out_name=self.name,
                 in_names=[expr1.name],
-                powers=expr2,
+                powers=[expr2],
                 in_vals=[expr1.val],
             )
 
         else:
-            # TODO: constant array exponent
             # TODO: stock component where exponent is not a constant
-            return NotImplemented
+            raise TypeError(
+                "Exponent must be a number or an array of constants")
 
     def __repr__(self):
         shape_str = "("
-- 
2.43.0


From 9bd8688537ebfb7b9f88d001e703e12282c01923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 08/43] fix: average over more than one axis, and over an axis
 other than the first

---
 omtools/comps/multiple_tensor_average_comp.py | 2 +-
 omtools/comps/single_tensor_average_comp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/multiple_tensor_average_comp.py b/omtools/comps/multiple_tensor_average_comp.py
index 882906e..8b2de65 100644
--- a/omtools/comps/multiple_tensor_average_comp.py
+++ b/omtools/comps/multiple_tensor_average_comp.py
@@ -72,7 +72,7 @@ class MultipleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ),
                           1. / (num_entries_averaged * self.num_inputs))
             for in_name, in_val in zip(in_names, vals):
diff --git a/omtools/comps/single_tensor_average_comp.py b/omtools/comps/single_tensor_average_comp.py
index e46c784..6753aab 100644
--- a/omtools/comps/single_tensor_average_comp.py
+++ b/omtools/comps/single_tensor_average_comp.py
@@ -65,7 +65,7 @@ class SingleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ), 1. / num_entries_averaged)
             self.declare_partials(out_name,
                                   in_name,
-- 
2.43.0


From a9ed61b9751819bbef4c770839596f6f6834534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 09/43] fix: differentiate max, min and pnorm at the current
 inputs

---
 omtools/comps/axiswise_max_comp.py            | 25 +++++++++++++------
 omtools/comps/axiswise_min_comp.py            | 25 +++++++++++++------
 omtools/comps/scalar_extremum_comp.py         | 22 ++++++++--------
 .../comps/vectorized_axiswise_pnorm_comp.py   |  8 +++---
 omtools/comps/vectorized_pnorm_comp.py        |  8 +++---
 5 files changed, 57 insertions(+), 31 deletions(-)

diff --git a/omtools/comps/axiswise_max_comp.py b/omtools/comps/axiswise_max_comp.py
index 7da60ad..11953d4 100644
--- a/omtools/comps/axiswise_max_comp.py
+++ b/omtools/comps/axiswise_max_comp.py
@@ -57,7 +57,6 @@ class AxisMaxComp(ExplicitComponent):
     def compute(self, inputs, outputs):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        shape = self.options['shape']
         axis = self.options['axis']
         rho = self.options['rho']
 
@@ -74,6 +73,23 @@ class AxisMaxComp(ExplicitComponent):
         result = g_max + 1.0 / rho * np.log(summation)
         outputs[out_name] = result
 
+    def compute_partials(self, inputs, partials):
+        in_name = self.options['in_name']
+        out_name = self.options['out_name']
+        axis = self.options['axis']
+        rho = self.options['rho']
+
+        con_val = inputs[in_name]
+
+        g_max = np.max(con_val, axis=axis)
+        g_diff = con_val - np.einsum(
+            self.einsum_str,
+            g_max,
+            self.ones,
+        )
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents, axis=axis)
+
         dsum_dg = rho * exponents
         dKS_dsum = 1.0 / (rho * np.einsum(
             self.einsum_str,
@@ -82,12 +98,7 @@ class AxisMaxComp(ExplicitComponent):
         ))
         dKS_dg = dKS_dsum * dsum_dg
 
-        self.dKS_dg = dKS_dg
-
-    def compute_partials(self, inputs, partials):
-        in_name = self.options['in_name']
-        out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/axiswise_min_comp.py b/omtools/comps/axiswise_min_comp.py
index db80ae7..840c094 100644
--- a/omtools/comps/axiswise_min_comp.py
+++ b/omtools/comps/axiswise_min_comp.py
@@ -56,7 +56,6 @@ class AxisMinComp(ExplicitComponent):
     def compute(self, inputs, outputs):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        shape = self.options['shape']
         axis = self.options['axis']
         rho = self.options['rho']
 
@@ -73,6 +72,23 @@ class AxisMinComp(ExplicitComponent):
         result = -g_max - 1.0 / rho * np.log(summation)
         outputs[out_name] = result
 
+    def compute_partials(self, inputs, partials):
+        in_name = self.options['in_name']
+        out_name = self.options['out_name']
+        axis = self.options['axis']
+        rho = self.options['rho']
+
+        con_val = -inputs[in_name]
+
+        g_max = np.max(con_val, axis=axis)
+        g_diff = con_val - np.einsum(
+            self.einsum_str,
+            g_max,
+            self.ones,
+        )
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents, axis=axis)
+
         dsum_dg = rho * exponents
         dKS_dsum = 1.0 / (rho * np.einsum(
             self.einsum_str,
@@ -81,12 +97,7 @@ class AxisMinComp(ExplicitComponent):
         ))
         dKS_dg = dKS_dsum * dsum_dg
 
-        self.dKS_dg = dKS_dg
-
-    def compute_partials(self, inputs, partials):
-        in_name = self.options['in_name']
-        out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/scalar_extremum_comp.py b/omtools/comps/scalar_extremum_comp.py
index 94d7052..be62f09 100644
--- a/omtools/comps/scalar_extremum_comp.py
+++ b/omtools/comps/scalar_extremum_comp.py
@@ -46,7 +46,6 @@ class ScalarExtremumComp(ExplicitComponent):
         """
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        shape = self.options['shape']
         lower_flag = self.options['lower_flag']
         rho = self.options['rho']
 
@@ -66,15 +65,6 @@ class ScalarExtremumComp(ExplicitComponent):
         else:
             outputs[out_name] = result
 
-        dsum_dg = rho * exponents
-        dKS_dsum = 1.0 / (rho * summation * np.ones(shape))
-        dKS_dg = dKS_dsum * dsum_dg
-
-        self.dKS_dg = dKS_dg
-
-        # if lower_flag:
-        #     self.dKS_dg = -self.dKS_dg
-
     def compute_partials(self, inputs, partials):
         """
         Compute sub-jacobian parts. The model is assumed to be in an unscaled state.
@@ -87,7 +77,17 @@ class ScalarExtremumComp(ExplicitComponent):
         """
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        lower_flag = self.options['lower_flag']
+        rho = self.options['rho']
+
+        if lower_flag:
+            g_diff = -1.0 * inputs[in_name] - np.max(-1.0 * inputs[in_name])
+        else:
+            g_diff = inputs[in_name] - np.max(inputs[in_name])
+
+        exponents = np.exp(rho * g_diff)
+        partials[out_name,
+                 in_name] = (exponents / np.sum(exponents)).flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/vectorized_axiswise_pnorm_comp.py b/omtools/comps/vectorized_axiswise_pnorm_comp.py
index 7f2735c..e8c161b 100644
--- a/omtools/comps/vectorized_axiswise_pnorm_comp.py
+++ b/omtools/comps/vectorized_axiswise_pnorm_comp.py
@@ -85,8 +85,8 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         pnorm_type = self.options['pnorm_type']
         axis = self.options['axis']
 
-        self.outputs = outputs[out_name] = np.sum(inputs[in_name]**pnorm_type,
-                                                  axis=axis)**(1 / pnorm_type)
+        outputs[out_name] = np.sum(inputs[in_name]**pnorm_type,
+                                   axis=axis)**(1 / pnorm_type)
 
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
@@ -94,8 +94,10 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         pnorm_type = self.options['pnorm_type']
         axis = self.options['axis']
 
+        pnorm = np.sum(inputs[in_name]**pnorm_type,
+                       axis=axis)**(1 / pnorm_type)
         partials[out_name, in_name] = np.einsum(
-            self.operation, self.outputs**(1 - pnorm_type),
+            self.operation, pnorm**(1 - pnorm_type),
             inputs[in_name]**(pnorm_type - 1)).flatten()
 
 
diff --git a/omtools/comps/vectorized_pnorm_comp.py b/omtools/comps/vectorized_pnorm_comp.py
index b35eaa7..d850eac 100644
--- a/omtools/comps/vectorized_pnorm_comp.py
+++ b/omtools/comps/vectorized_pnorm_comp.py
@@ -47,7 +47,7 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        self.outputs = outputs[out_name] = np.linalg.norm(
+        outputs[out_name] = np.linalg.norm(
             inputs[in_name].flatten(), ord=pnorm_type)
 
     def compute_partials(self, inputs, partials):
@@ -55,8 +55,10 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        partials[out_name, in_name] = self.outputs**(
-            1 - pnorm_type) * inputs[in_name]**(pnorm_type - 1)
+        x = inputs[in_name].flatten()
+        pnorm = np.linalg.norm(x, ord=pnorm_type)
+        partials[out_name,
+                 in_name] = pnorm**(1 - pnorm_type) * x**(pnorm_type - 1)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 126420317a7ab9b8c2a465f650221b50a0501672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 10/43] fix: differentiate einsum with repeated operands and
 sparse partials

---
 omtools/comps/einsum_comp_dense_derivs.py  | 2 +-
 omtools/comps/einsum_comp_sparse_derivs.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/einsum_comp_dense_derivs.py b/omtools/comps/einsum_comp_dense_derivs.py
index e6c8ad0..12ff250 100644
--- a/omtools/comps/einsum_comp_dense_derivs.py
+++ b/omtools/comps/einsum_comp_dense_derivs.py
@@ -181,7 +181,7 @@ class EinsumComp(ExplicitComponent):
             partials[out_name, in_name] = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 043e366..d027b91 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -292,6 +292,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
 
             else:
                 self.declare_partials(out_name, in_name)
+                self.partial_indices_list.append(None)
 
     def compute(self, inputs, outputs):
         in_names = self.options['in_names']
@@ -348,7 +349,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
             partial = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
@@ -381,7 +382,8 @@ class SparsePartialEinsumComp(ExplicitComponent):
                 partial_indices_list = self.partial_indices_list[
                     len(completed_in_names) - 1]
 
-                partials[out_name, in_name] = partial[partial_indices_list]
+                partials[out_name, in_name] = partial[tuple(
+                    partial_indices_list)]
 
             else:
                 partials[out_name, in_name] = partial
-- 
2.43.0


From 1e443ff9fbdffd88ed88400d190cde97f659ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 11/43] fix: give a matrix product the shape its operands imply

---
 omtools/comps/matmat_comp.py | 11 ++++++-----
 omtools/std/matmat.py        |  3 ++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/omtools/comps/matmat_comp.py b/omtools/comps/matmat_comp.py
index 781b7fa..3695a84 100644
--- a/omtools/comps/matmat_comp.py
+++ b/omtools/comps/matmat_comp.py
@@ -24,6 +24,7 @@ class MatMatComp(ExplicitComponent):
         self.options.declare('in_names', types=list)
         self.options.declare('out_name', types=str)
         self.options.declare('in_shapes', types=list)
+        self.options.declare('out_shape', default=None, types=tuple)
         self.options.declare('in_vals', types=list)
 
     def setup(self):
@@ -35,12 +36,10 @@ class MatMatComp(ExplicitComponent):
         self.add_input(in_names[0], shape=in_shapes[0], val=in_vals[0])
         self.add_input(in_names[1], shape=in_shapes[1], val=in_vals[1])
 
-        if in_shapes[1][1] != 1:
+        output_shape = self.options['out_shape']
+        if output_shape is None:
             output_shape = (in_shapes[0][0], in_shapes[1][1])
 
-        else:
-            output_shape = (in_shapes[0][0], )
-
         self.add_output(
             out_name,
             shape=output_shape,
@@ -68,7 +67,9 @@ class MatMatComp(ExplicitComponent):
         in_names = self.options['in_names']
         out_name = self.options['out_name']
 
-        outputs[out_name] = inputs[in_names[0]] @ inputs[in_names[1]]
+        outputs[out_name] = (inputs[in_names[0]]
+                             @ inputs[in_names[1]]).reshape(
+                                 outputs[out_name].shape)
 
     def compute_partials(self, inputs, partials):
         in_names = self.options['in_names']
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index bf8eb76..61b9805 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -38,7 +38,7 @@ def matmat(mat1, mat2):
         )
 
     elif mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 1:
-        out.shape = (mat1.shape[0], 1)
+        out.shape = (mat1.shape[0], )
 
         mat2_shape = (mat2.shape[0], 1)
 
@@ -47,6 +47,7 @@ def matmat(mat1, mat2):
             out_name=out.name,
             in_shapes=[mat1.shape, mat2_shape],
             in_vals=[mat1.val, mat2.val.reshape(mat2_shape)],
+            out_shape=out.shape,
         )
     else:
         raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
-- 
2.43.0


From 840a064df6554174c3b97d1d7a2fd1645fa48cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 12/43] fix: keep the default value of an input that is
 expanded

---
 omtools/comps/scalar_expansion_comp.py | 4 +++-
 omtools/std/expand.py                  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/scalar_expansion_comp.py b/omtools/comps/scalar_expansion_comp.py
index 971729e..36c5db9 100644
--- a/omtools/comps/scalar_expansion_comp.py
+++ b/omtools/comps/scalar_expansion_comp.py
@@ -10,13 +10,15 @@ class ScalarExpansionComp(ExplicitComponent):
         self.options.declare('shape', types=tuple)
         self.options.declare('in_name', types=str)
         self.options.declare('out_name', types=str)
+        self.options.declare('val', default=None, types=np.ndarray, allow_none=True)
 
     def setup(self):
         shape = self.options['shape']
         in_name = self.options['in_name']
         out_name = self.options['out_name']
 
-        self.add_input(in_name)
+        val = self.options['val']
+        self.add_input(in_name, val=1. if val is None else val)
         self.add_output(out_name, shape=shape)
 
         rows = np.arange(np.prod(shape))
diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 43f84e6..6a84afe 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -57,5 +57,6 @@ def expand(expr: Variable, shape: tuple, indices=None):
             shape=shape,
             in_name=expr.name,
             out_name=out.name,
+            val=expr.val,
         )
     return out
-- 
2.43.0


From d09db1aa57b248503261df974a956efad8d05a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:47 +0000
Subject: [PATCH 13/43] fix: give conditional expressions the shape and
 derivatives of their branch

---
 omtools/std/if_else.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index c3a8ac9..4936322 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -17,10 +17,16 @@ class ConditionalComponent(ExplicitComponent):
         expr_true = self.options['expr_true']
         expr_false = self.options['expr_false']
 
-        self.add_input(condition.name, condition.val)
-        self.add_input(expr_true.name, expr_true.val)
-        self.add_input(expr_false.name, expr_false.val)
-        self.add_output(out_name)
+        self.add_input(condition.name,
+                       shape=condition.shape,
+                       val=condition.val)
+        self.add_input(expr_true.name,
+                       shape=expr_true.shape,
+                       val=expr_true.val)
+        self.add_input(expr_false.name,
+                       shape=expr_false.shape,
+                       val=expr_false.val)
+        self.add_output(out_name, shape=expr_true.shape)
 
         self.declare_partials(
             of=out_name,
@@ -47,10 +53,10 @@ class ConditionalComponent(ExplicitComponent):
         expr_false = self.options['expr_false']
 
         if inputs[condition.name] < 0:
-            partials[out_name, expr_false.name] = inputs[expr_false.name]
+            partials[out_name, expr_false.name] = 1
             partials[out_name, expr_true.name] = 0
         else:
-            partials[out_name, expr_true.name] = inputs[expr_true.name]
+            partials[out_name, expr_true.name] = 1
             partials[out_name, expr_false.name] = 0
 
 
@@ -66,6 +72,7 @@ def if_else(
 
     condition, expr_true, expr_false = distinct_operands(condition, expr_true, expr_false)
     out = Variable()
+    out.shape = expr_true.shape
     out.add_dependency_node(condition)
     out.add_dependency_node(expr_true)
     out.add_dependency_node(expr_false)
-- 
2.43.0


From 695b981503eba3f0c6f83bfa7e84e675f67ce015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 14/43] fix: allow computed expressions to be indexed and
 multiplied as vectors

---
 omtools/core/variable.py | 9 ++++++---
 omtools/std/matmat.py    | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 16731a8..9ec3087 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -187,7 +187,7 @@ class Variable():
     ):
         if self._getitem_called == False:
             self._getitem_called = True
-            self._decomp = Variable(shape=self.shape, val=self.val[key])
+            self._decomp = Variable(shape=self.shape, val=self.val)
             self._decomp.name = 'decompose_' + self.name
             self._decomp.add_dependency_node(self)
 
@@ -238,7 +238,10 @@ class Variable():
                              self.__repr__())
 
         # Create and store expression to return
-        val = self.val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
+        # (the default value of a computed expression is not stored for
+        # each of its elements)
+        in_val = self.val * np.ones(self.shape)
+        val = in_val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
         expr = Variable(shape=val.shape, val=val)
         self._decomp.indexed_exprs[key] = expr
         expr.add_dependency_node(self._decomp)
@@ -249,7 +252,7 @@ class Variable():
         self._decomp.build = lambda: DecomposeComp(
             in_name=self.name,
             expr=self._decomp,
-            val=self.val,
+            val=in_val,
         )
         return expr
 
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 61b9805..6a5f919 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -46,7 +46,7 @@ def matmat(mat1, mat2):
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
             in_shapes=[mat1.shape, mat2_shape],
-            in_vals=[mat1.val, mat2.val.reshape(mat2_shape)],
+            in_vals=[mat1.val, (mat2.val * np.ones(mat2.shape)).reshape(mat2_shape)],
             out_shape=out.shape,
         )
     else:
-- 
2.43.0


From 16f639f3e26a99be4dd11766644ac580af4ff46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 15/43] fix: connect assigned expressions that are registered
 after the assignment

---
 omtools/core/explicit_output.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index d6f0d9f..29f3072 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -42,7 +42,7 @@ class ExplicitOutput(Output):
         self._tgt_indices: Dict[str, List[int]] = {}
         self.checked_indices = set()
         self.overlapping_indices = set()
-        self._tgt_vals = dict()
+        self._tgt_exprs: Dict[str, Variable] = {}
 
     def define(self, expr: Variable):
         """
@@ -142,12 +142,12 @@ class ExplicitOutput(Output):
             raise ValueError("Indices given are out of range for " +
                              self.__repr__())
 
-        if expr.name in self._tgt_indices.keys():
+        if expr.name in [e.name for e in self._tgt_exprs.values()]:
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        self._tgt_indices[expr.name] = (expr.shape, tgt_indices)
-        self._tgt_vals[expr.name] = expr.val
+        self._tgt_exprs[expr._id] = expr
+        self._tgt_indices[expr._id] = (expr.shape, tgt_indices)
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
@@ -156,11 +156,17 @@ class ExplicitOutput(Output):
         if len(self.overlapping_indices) > 0:
             raise ValueError("Indices used for assignment must not overlap")
 
+        # NOTE: use names at the time of building; registering an
+        # expression as an output changes its name
         self.build = lambda: IndexedPassThroughComp(
-            expr_indices=self._tgt_indices,
+            expr_indices={
+                e.name: self._tgt_indices[i]
+                for i, e in self._tgt_exprs.items()
+            },
             out_name=self.name,
             out_shape=self.shape,
-            vals=self._tgt_vals,
+            vals={e.name: e.val
+                  for e in self._tgt_exprs.values()},
         )
         self.indexed_assignment = True
         self.defined = True
-- 
2.43.0


From d336a93bddef61ba03c9cb4bdf7dcbbe39979cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 16/43] fix: leave an output unchanged when an indexed
 assignment is rejected

---
 omtools/core/explicit_output.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 29f3072..c5d01e7 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -90,7 +90,14 @@ class ExplicitOutput(Output):
         key: Union[int, slice, Tuple[slice]],
         expr: Variable,
     ):
-        self.add_dependency_node(expr)
+        if not isinstance(expr, Variable):
+            raise TypeError(expr, " is not an Variable object")
+        if expr is self:
+            raise ValueError("Variable for output " + self.name +
+                             " cannot be self")
+        if self.defined == True and self.indexed_assignment == False:
+            raise ValueError("Variable for output " + self.name +
+                             " is already defined")
         tgt_indices = []
 
         # n-d array assignment
@@ -138,7 +145,8 @@ class ExplicitOutput(Output):
         tgt_indices = np.array(tgt_indices).flatten()
 
         # Check size
-        if np.amax(tgt_indices) >= np.prod(self.shape):
+        if np.amin(tgt_indices) < 0 or np.amax(tgt_indices) >= np.prod(
+                self.shape):
             raise ValueError("Indices given are out of range for " +
                              self.__repr__())
 
@@ -146,15 +154,18 @@ class ExplicitOutput(Output):
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        self._tgt_exprs[expr._id] = expr
-        self._tgt_indices[expr._id] = (expr.shape, tgt_indices)
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
             tgt_indices)
-        self.checked_indices = self.checked_indices.union(tgt_indices)
         if len(self.overlapping_indices) > 0:
             raise ValueError("Indices used for assignment must not overlap")
+        self.checked_indices = self.checked_indices.union(tgt_indices)
+
+        # All checks have passed
+        self.add_dependency_node(expr)
+        self._tgt_exprs[expr._id] = expr
+        self._tgt_indices[expr._id] = (expr.shape, tgt_indices)
 
         # NOTE: use names at the time of building; registering an
         # expression as an output changes its name
-- 
2.43.0


From 72f2dc2dcae6a712e85680f81b3d25c6546c24a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 17/43] fix: leave an output unchanged when its definition is
 rejected

---
 omtools/core/explicit_output.py |  5 +++++
 omtools/core/implicit_output.py | 30 ++++++++++++++++++------------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index c5d01e7..26d89c0 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -55,9 +55,14 @@ class ExplicitOutput(Output):
         expr: Variable
             The expression to compute iteratively until convergence
         """
+        if not isinstance(expr, Variable):
+            raise TypeError(expr, " is not an Variable object")
         if expr is self:
             raise ValueError("Variable for output " + self.name +
                              " cannot be self")
+        if expr.shape != self.shape:
+            raise ValueError("Shape of expression " + repr(expr) +
+                             " does not match shape of output " + self.name)
         if self.indexed_assignment == True and self.defined == True:
             raise ValueError(
                 "Variable for output " + self.name +
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index b6a9974..c08cc40 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -87,6 +87,15 @@ class ImplicitOutput(Output):
         if self.defined == True:
             raise ValueError("Variable for residual of " + self.name +
                              " is already defined")
+        if residual_expr.shape != self.shape:
+            raise ValueError("Shape of residual " + repr(residual_expr) +
+                             " does not match shape of output " + self.name)
+
+        # register expression that computes residual
+        self.group.register_output(
+            residual_expr.name,
+            residual_expr,
+        )
 
         # set flag so that this expression is a residual and not an
         # output of an ImplicitComponent
@@ -100,12 +109,6 @@ class ImplicitOutput(Output):
             Input(self.name, shape=self.shape, val=self.val),
         )
 
-        # register expression that computes residual
-        self.group.register_output(
-            residual_expr.name,
-            residual_expr,
-        )
-
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
         self.group.out_vals[self.name] = self.val
@@ -133,6 +136,15 @@ class ImplicitOutput(Output):
         if self.defined == True:
             raise ValueError("Variable for residual of " + self.name +
                              " is already defined")
+        if residual_expr.shape != self.shape:
+            raise ValueError("Shape of residual " + repr(residual_expr) +
+                             " does not match shape of output " + self.name)
+
+        # register expression that computes residual
+        self.group.register_output(
+            residual_expr.name,
+            residual_expr,
+        )
 
         # set flag so that this expression is a residual and not an
         # output of an ImplicitComponent
@@ -146,12 +158,6 @@ class ImplicitOutput(Output):
             Input(self.name, shape=self.shape, val=self.val),
         )
 
-        # register expression that computes residual
-        self.group.register_output(
-            residual_expr.name,
-            residual_expr,
-        )
-
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
         self.group.brackets_map = (dict(), dict())
-- 
2.43.0


From a6daf32bd235f5781020916c9a1db36fb26cfd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 18/43] fix: start iterating on a cyclic output from its
 declared value

---
 omtools/comps/pass_through_comp.py | 4 +++-
 omtools/core/explicit_output.py    | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/pass_through_comp.py b/omtools/comps/pass_through_comp.py
index effad03..1821fc5 100644
--- a/omtools/comps/pass_through_comp.py
+++ b/omtools/comps/pass_through_comp.py
@@ -7,6 +7,7 @@ class PassThroughComp(ExplicitComponent):
     def initialize(self):
         self.options.declare('expr', types=Variable)
         self.options.declare('name', types=str)
+        self.options.declare('val', default=1., types=(float, np.ndarray))
 
     def setup(self):
         shape = self.options['expr'].shape
@@ -15,7 +16,8 @@ class PassThroughComp(ExplicitComponent):
         out_name = self.options['name']
 
         self.add_input(in_name, shape=shape, val=val)
-        self.add_output(out_name, shape=shape)
+        out_val = self.options['val']
+        self.add_output(out_name, shape=shape, val=out_val)
 
         r = np.arange(np.prod(shape))
         self.declare_partials(
diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 26d89c0..115bd75 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -86,6 +86,7 @@ class ExplicitOutput(Output):
         self.build = lambda: PassThroughComp(
             expr=expr,
             name=self.name,
+            val=self.val,
         )
 
     # TODO: index by tuple, not expression?
-- 
2.43.0


From 0af956d9fec04dd6c50e8dca0587fcf533205182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 19/43] fix: remove the dependencies found to be indirect, and
 no others

---
 omtools/core/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/graph.py b/omtools/core/graph.py
index 34a3125..6ee5f00 100644
--- a/omtools/core/graph.py
+++ b/omtools/core/graph.py
@@ -22,7 +22,7 @@ def remove_indirect_dependencies(node: Variable):
             if index is not None:
                 remove.append(index)
     # remove duplicate indices
-    remove = list(set(remove))
+    remove = sorted(set(remove))
     terminal_index = 0
     # children form cycle
     # TODO: explain better
-- 
2.43.0


From 060d2bf8c689747bd5be4dd2d3d7de2e854089b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 20/43] fix: number expressions uniquely when several threads
 create them

---
 omtools/core/variable.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 9ec3087..b36c211 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -1,3 +1,4 @@
+import itertools
 import numbers
 from typing import Optional, Tuple, Union
 
@@ -70,7 +71,8 @@ class Variable():
     """
 
     # A counter for all Variable objects created so far
-    _count = -1
+    # (incrementing an int is not atomic; next is)
+    _count = itertools.count()
 
     # Let reflected operators handle constant arrays on the left hand
     # side, instead of NumPy broadcasting over the entries of the array
@@ -162,8 +164,7 @@ class Variable():
                 self.units = v
 
     def __init__(self, *args, **kwargs):
-        Variable._count += 1
-        _id = gen_hex_name(Variable._count)
+        _id = gen_hex_name(next(Variable._count))
         self._id = _id
         self.name = _id
         self.shape = (1, )
-- 
2.43.0


From 7576bcaa294f8bc91efa334a0714fc30c12ea196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 21/43] fix: traverse shared expressions once, however deep,
 when building a group

---
 omtools/core/graph.py                      |  3 +-
 omtools/core/group.py                      |  2 +-
 omtools/core/variable.py                   | 74 +++++++++++++---------
 omtools/utils/collect_input_exprs.py       | 16 +++--
 omtools/utils/replace_output_leaf_nodes.py | 19 ++++--
 5 files changed, 69 insertions(+), 45 deletions(-)

diff --git a/omtools/core/graph.py b/omtools/core/graph.py
index 6ee5f00..2443949 100644
--- a/omtools/core/graph.py
+++ b/omtools/core/graph.py
@@ -16,9 +16,10 @@ def remove_indirect_dependencies(node: Variable):
     """
     # List of indices corresponding to child node references to remove
     remove: list = []
+    indices = {child: i for i, child in enumerate(node.dependencies)}
     for child in node.dependencies:
         for grandchild in child.dependencies:
-            index = node.get_dependency_index(grandchild)
+            index = indices.get(grandchild)
             if index is not None:
                 remove.append(index)
     # remove duplicate indices
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 512dd93..690c004 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -62,7 +62,7 @@ def _post_setup(func: Callable) -> Callable:
             if len(node.dependents) == 0:
                 keys.append(name)
         for name in keys:
-            del node[name]
+            del self.nodes[name]
 
         # Compute branch costs and sort branches to get desired sparsity
         # pattern in system jacobian
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index b36c211..19f6ad9 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -258,9 +258,15 @@ class Variable():
         return expr
 
     def add_fwd_edges(self):
-        for dependency in self.dependencies:
-            dependency.add_dependent_node(self)
-            dependency.add_fwd_edges()
+        visited = {self}
+        stack = [self]
+        while stack != []:
+            node = stack.pop()
+            for dependency in node.dependencies:
+                dependency.add_dependent_node(node)
+                if dependency not in visited:
+                    visited.add(dependency)
+                    stack.append(dependency)
 
     def add_dependent_node(self, dependent):
         self.dependents.append(dependent)
@@ -296,23 +302,26 @@ class Variable():
         nodes: dict[Variable]
             Dictionary of nodes registered so far
         """
-        for node in self.dependencies:
-            # Check for name collisions
-            if node._id in nodes.keys():
-                if nodes[node._id] is not None:
-                    # if name is in use and a separate object is already
-                    # registered, then we have a name collision
-                    if nodes[node._id] is not node:
-                        raise ValueError(
-                            "Name collision (", node.name, ") between ",
-                            nodes[node._id], " and ", node,
-                            "; check that calls to regiser_output and ",
-                            "create_* do not give the same name to ",
-                            "two outputs")
-            else:
-                # register node
-                nodes[node._id] = node
-                node.register_nodes(nodes)
+        stack = [self]
+        while stack != []:
+            for node in stack.pop().dependencies:
+                # Check for name collisions
+                if node._id in nodes.keys():
+                    if nodes[node._id] is not None:
+                        # if name is in use and a separate object is
+                        # already registered, then we have a name
+                        # collision
+                        if nodes[node._id] is not node:
+                            raise ValueError(
+                                "Name collision (", node.name, ") between ",
+                                nodes[node._id], " and ", node,
+                                "; check that calls to regiser_output and ",
+                                "create_* do not give the same name to ",
+                                "two outputs")
+                else:
+                    # register node
+                    nodes[node._id] = node
+                    stack.append(node)
 
     def incr_times_visited(self):
         """
@@ -368,22 +377,25 @@ class Variable():
         values of cost and terminate; required for sorting branches
         before performing ``topological_sort``
 
-        Parameters
-        ----------
-        branch: set[Variable]
-            Set of all Variable objects traversed so far in current
-            branch. If a dependency is in ``branch``, then
-            ``compute_dag_cost`` will terminate and return a value. If
-            ``self`` is a leaf node, then ``compute_dag_cost`` will
-            terminate.
-
         Returns
         -------
         int
            Cost of traversing DAG starting with ``self``
         """
-        for dependency in self.dependencies:
-            self._dag_cost += dependency.compute_dag_cost()
+        visited = {self}
+        stack = [(self, iter(self.dependencies))]
+        while stack != []:
+            node, dependencies = stack[-1]
+            for dependency in dependencies:
+                if dependency not in visited:
+                    visited.add(dependency)
+                    stack.append((dependency, iter(dependency.dependencies)))
+                    break
+            else:
+                # cost of each dependency is known
+                node._dag_cost = 1 + sum(dependency._dag_cost
+                                         for dependency in node.dependencies)
+                stack.pop()
         return self._dag_cost
 
     def sort_dependency_branches(self, reverse_branch_sorting=False):
diff --git a/omtools/utils/collect_input_exprs.py b/omtools/utils/collect_input_exprs.py
index 799860b..09fdc4f 100644
--- a/omtools/utils/collect_input_exprs.py
+++ b/omtools/utils/collect_input_exprs.py
@@ -13,10 +13,14 @@ def collect_input_exprs(
     Collect input nodes so that the resulting ``ImplicitComponent`` has
     access to inputs outside of itself.
     """
-    for dependency in expr.dependencies:
-        if dependency.name != root.name:
-            if isinstance(dependency, Input) == True and len(
-                    dependency.dependencies) == 0:
-                inputs.append(dependency)
-            inputs = collect_input_exprs(inputs, root, dependency)
+    visited = {expr}
+    stack = [expr]
+    while stack != []:
+        for dependency in stack.pop().dependencies:
+            if dependency.name != root.name and dependency not in visited:
+                visited.add(dependency)
+                if isinstance(dependency, Input) == True and len(
+                        dependency.dependencies) == 0:
+                    inputs.append(dependency)
+                stack.append(dependency)
     return inputs
diff --git a/omtools/utils/replace_output_leaf_nodes.py b/omtools/utils/replace_output_leaf_nodes.py
index 73dc4ef..c6d1276 100644
--- a/omtools/utils/replace_output_leaf_nodes.py
+++ b/omtools/utils/replace_output_leaf_nodes.py
@@ -12,9 +12,16 @@ def replace_output_leaf_nodes(
     Replace ``Output`` objects that are used before they are defined
     with ``Input`` objects with same data.
     """
-    for dependency in node.dependencies:
-        if dependency is root:
-            # replace dependency reference with Input node
-            node.remove_dependency_node(dependency)
-            node.add_dependency_node(leaf)
-        replace_output_leaf_nodes(root, dependency, leaf)
+    visited = {node}
+    stack = [node]
+    while stack != []:
+        node = stack.pop()
+        # iterate over a copy, which is not modified by replacing
+        for dependency in list(node.dependencies):
+            if dependency is root:
+                # replace dependency reference with Input node
+                node.remove_dependency_node(dependency)
+                node.add_dependency_node(leaf)
+            elif dependency not in visited:
+                visited.add(dependency)
+                stack.append(dependency)
-- 
2.43.0


From 65f84f92d81d01c125571a8a93cdddf1e958da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 22/43] fix: build the same subsystems when a group is set up
 again

---
 omtools/core/group.py | 77 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 9 deletions(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 690c004..2424dd2 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -35,9 +35,33 @@ def _post_setup(func: Callable) -> Callable:
         User defined method to define expressions and add subsystems for
         model execution
         """
-        # The user-defined Group.setup() method
-        func(self)
+        # setup of a base class, called from an overriding method
+        if self._in_setup == True:
+            func(self)
+            return
 
+        # Subsystems added outside of OpenMDAO's setup are kept by
+        # OpenMDAO
+        if self._built_outside_setup == True:
+            return
+
+        # Start from what was declared before the first call to setup,
+        # so that setting up again builds the same subsystems
+        self._reset_declarations()
+
+        self._in_setup = True
+        try:
+            # The user-defined Group.setup() method
+            func(self)
+            _build_components(self)
+        finally:
+            self._in_setup = False
+        self._built_outside_setup = self._static_mode
+
+    def _build_components(self):
+        """
+        Sort expressions and add subsystems for model execution
+        """
         # Create a record of all nodes in DAG
         self._root.register_nodes(self.nodes)
 
@@ -75,6 +99,10 @@ def _post_setup(func: Callable) -> Callable:
         # feedbacks will only occur if there is coupling between
         # components)
         self.sorted_expressions = topological_sort(self._root)
+        if len(self.sorted_expressions) < len(self.nodes):
+            raise ValueError(
+                "Expressions depend on themselves; use define to compute an "
+                "output from itself")
 
         # Now that expressions are sorted, construct components
         for expr in reversed(self.sorted_expressions):
@@ -160,6 +188,40 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.res_out_map: Dict[str, str] = dict()
         self.brackets_map = None
         self.out_vals = dict()
+        self._in_setup = False
+        self._built_outside_setup = False
+        self._declared_outside_setup = None
+
+    def _reset_declarations(self):
+        """
+        Discard declarations made by a previous call to ``setup``. Keep
+        declarations made before the first call to ``setup``.
+        """
+        if self._declared_outside_setup is None:
+            nodes = dict()
+            self._root.register_nodes(nodes)
+            self._declared_outside_setup = (
+                [(node, list(node.dependencies))
+                 for node in [self._root] + list(nodes.values())],
+                self._most_recently_added_subsystem,
+                dict(self.res_out_map),
+                self.brackets_map,
+                dict(self.out_vals),
+            )
+            return
+
+        nodes, subsystem, res_out_map, brackets_map, out_vals = \
+            self._declared_outside_setup
+        for node, dependencies in nodes:
+            node.dependencies = list(dependencies)
+            node.dependents = []
+            node.times_visited = 0
+            node._dag_cost = 1
+        self.nodes = {}
+        self._most_recently_added_subsystem = subsystem
+        self.res_out_map = dict(res_out_map)
+        self.brackets_map = brackets_map
+        self.out_vals = dict(out_vals)
 
     def initialize(self, *args, **kwargs):
         """
@@ -413,10 +475,7 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         Group
             Child ``Group`` object whosevariables are all promoted
         """
-        try:
-            group = Group()
-            self.add_subsystem(name, group, promotes=['*'])
-            yield group
-        finally:
-            group.setup()
-            pass
+        group = Group()
+        self.add_subsystem(name, group, promotes=['*'])
+        yield group
+        group.setup()
-- 
2.43.0


From e88d21375cab17526533603341599711113e2318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 23/43] fix: build the same residuals when an implicit
 component is set up again

---
 omtools/comps/implicit_component.py | 31 +++++++++++++++++++++++++----
 omtools/core/group.py               |  3 ++-
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 912df33..59a35ac 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -37,7 +37,24 @@ def _remove_nonresiduals(root: Variable):
 # TODO: disallow implicit variables in main group class
 def _post_setup(func: Callable) -> Callable:
     def _build_problem(self):
-        func(self)
+        # setup of a base class, called from an overriding method
+        if self._in_setup == True:
+            func(self)
+            return
+
+        # Setting up again builds the same internal problem
+        if self._was_setup == True:
+            self._create_problem()
+        self._was_setup = True
+
+        self._in_setup = True
+        try:
+            func(self)
+        finally:
+            self._in_setup = False
+        _setup_problem(self)
+
+    def _setup_problem(self):
         # setup internal problem
         g = self.group
 
@@ -125,7 +142,8 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ProblemBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ProblemBuilder, cls).__new__(cls, name, bases, attr)
 
 
@@ -152,14 +170,19 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             ['apply_linear', 'apply_multi_linear', 'solve_multi_linear']
         }
 
+        self._create_problem()
+        self.maxiter = maxiter
+        self.n2 = n2
+        self._in_setup = False
+        self._was_setup = False
+
+    def _create_problem(self):
         self.prob = Problem()
         self.prob.model = Group()
         self.group = self.prob.model
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = dict()
-        self.maxiter = 100
-        self.n2 = n2
 
     def _set_values(self, inputs, outputs):
         for res_expr in self.group._root.dependencies:
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 2424dd2..c611472 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -152,7 +152,8 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ComponentBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ComponentBuilder, cls).__new__(cls, name, bases, attr)
 
 
-- 
2.43.0


From 6a2ef8e842a124bd6750701de78b80fc7a704e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 24/43] fix: support implicit outputs that share inputs or
 depend on each other

---
 omtools/comps/implicit_component.py  | 34 ++++++++++++++++------------
 omtools/core/implicit_output.py      |  4 +++-
 omtools/utils/collect_input_exprs.py |  6 +++--
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 59a35ac..876155e 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -62,13 +62,19 @@ def _post_setup(func: Callable) -> Callable:
 
         # Collect residual expressions and their corresponding inputs
         # and outputs
+        out_names = set(g.res_out_map.values())
+        in_names = set()
         for res_expr in g._root.dependencies:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
-                # inputs for this residual only
-                in_exprs = set(collect_input_exprs([], res_expr, res_expr))
                 # output corresponding to this residual
                 out_name = self.group.res_out_map[res_expr.name]
+                # inputs for this residual only, and outputs computed
+                # implicitly by other residuals
+                in_exprs = list({
+                    in_expr.name: in_expr
+                    for in_expr in collect_input_exprs([], res_expr, res_expr)
+                }.values())
 
                 # accumulate inputs and outputs to set values
                 self.all_inputs[out_name] = in_exprs
@@ -79,17 +85,19 @@ def _post_setup(func: Callable) -> Callable:
                 self.add_output(
                     out_name,
                     shape=res_expr.shape,
-                    val=res_expr.val,
+                    val=g.out_vals[out_name],
                 )
 
                 # add inputs, declare partials (out wrt in)
                 for in_expr in in_exprs:
                     if in_expr.name != out_name:
-                        self.add_input(
-                            in_expr.name,
-                            shape=in_expr.shape,
-                            val=in_expr.val,
-                        )
+                        if in_expr.name not in out_names and in_expr.name not in in_names:
+                            in_names.add(in_expr.name)
+                            self.add_input(
+                                in_expr.name,
+                                shape=in_expr.shape,
+                                val=in_expr.val,
+                            )
                         self.declare_partials(
                             of=out_name,
                             wrt=in_expr.name,
@@ -122,12 +130,10 @@ def _post_setup(func: Callable) -> Callable:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
-                if len(self.group.out_vals) == 0:
-                    self.prob[out_name] = 1
-                else:
-                    self.prob[out_name] = self.group.out_vals[out_name]
+                self.prob[out_name] = self.group.out_vals[out_name]
                 for in_expr in self.all_inputs[out_name]:
-                    self.prob[in_expr.name] = in_expr.val
+                    if in_expr.name not in out_names:
+                        self.prob[in_expr.name] = in_expr.val
 
         # create n2 diagram of internal model for debugging
         if self.n2 == True:
@@ -191,7 +197,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 out_name = self.group.res_out_map[res_expr.name]
                 self.prob[out_name] = outputs[out_name]
                 for in_expr in self.all_inputs[out_name]:
-                    if in_expr.name != out_name:
+                    if in_expr.name not in self.all_outputs:
                         self.prob[in_expr.name] = inputs[in_expr.name]
 
     def setup(self):
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index c08cc40..fb4fb53 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -160,7 +160,9 @@ class ImplicitOutput(Output):
 
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
-        self.group.brackets_map = (dict(), dict())
+        self.group.out_vals[self.name] = self.val
+        if self.group.brackets_map is None:
+            self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
         self.group.brackets_map[1][self.name] = x2
 
diff --git a/omtools/utils/collect_input_exprs.py b/omtools/utils/collect_input_exprs.py
index 09fdc4f..a509cbc 100644
--- a/omtools/utils/collect_input_exprs.py
+++ b/omtools/utils/collect_input_exprs.py
@@ -2,6 +2,7 @@ from typing import List
 
 from omtools.core.variable import Variable
 from omtools.core.input import Input
+from omtools.core.output import Output
 
 
 def collect_input_exprs(
@@ -11,7 +12,8 @@ def collect_input_exprs(
 ) -> List[Variable]:
     """
     Collect input nodes so that the resulting ``ImplicitComponent`` has
-    access to inputs outside of itself.
+    access to inputs outside of itself, and nodes for the outputs of the
+    ``ImplicitComponent``.
     """
     visited = {expr}
     stack = [expr]
@@ -19,7 +21,7 @@ def collect_input_exprs(
         for dependency in stack.pop().dependencies:
             if dependency.name != root.name and dependency not in visited:
                 visited.add(dependency)
-                if isinstance(dependency, Input) == True and len(
+                if isinstance(dependency, (Input, Output)) == True and len(
                         dependency.dependencies) == 0:
                     inputs.append(dependency)
                 stack.append(dependency)
-- 
2.43.0


From 3bcaa6189e2ca8b449063b5dfb5f705e0b26c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 25/43] fix: solve for bracketed outputs that depend on each
 other

---
 omtools/comps/implicit_component.py | 39 +++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 876155e..41e717e 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -2,7 +2,7 @@ import typing
 from typing import Dict, List, Set, Callable
 
 import numpy as np
-from openmdao.api import Problem
+from openmdao.api import AnalysisError, Problem
 from openmdao.api import ImplicitComponent as OMImplicitComponent
 from openmdao.solvers.solver import Solver
 
@@ -229,18 +229,52 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             residuals[out_name] = np.array(prob[res_name])
 
     def solve_nonlinear(self, inputs, outputs):
+        # residuals that depend on other outputs found by bracketing
+        # need to be solved again after the other outputs change
+        for _ in range(self.maxiter):
+            previous = {
+                out_name: np.array(outputs[out_name])
+                for out_name in self._bracketed_outputs()
+            }
+            self._solve_bracketed(inputs, outputs)
+            if self._coupled_brackets() == False or all(
+                    np.allclose(outputs[out_name], val, rtol=1e-14, atol=1e-14)
+                    for out_name, val in previous.items()):
+                return
+        raise AnalysisError(
+            "Outputs found by bracketing did not converge in " + self.pathname)
+
+    def _bracketed_outputs(self):
+        if self.group.brackets_map is None:
+            return []
+        return list(self.group.brackets_map[0].keys())
+
+    def _coupled_brackets(self):
+        bracketed = self._bracketed_outputs()
+        return any(in_expr.name != out_name and in_expr.name in bracketed
+                   for out_name in bracketed
+                   for in_expr in self.all_inputs[out_name])
+
+    def _check_residual(self, out_name, residuals):
+        if np.any(np.isnan(residuals[out_name])):
+            raise AnalysisError("Residual for " + out_name +
+                                " is not a number within its bracket")
+
+    def _solve_bracketed(self, inputs, outputs):
         for res_expr in self.group._root.dependencies:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
                 shape = res_expr.shape
 
-                if self.group.brackets_map is not None:
+                if out_name in self._bracketed_outputs():
                     x1 = self.group.brackets_map[0][out_name] * np.ones(shape)
                     x2 = self.group.brackets_map[1][out_name] * np.ones(shape)
 
                     r1 = self.run(inputs, outputs, out_name, x1)
                     r2 = self.run(inputs, outputs, out_name, x2)
+                    self._check_residual(out_name, r1)
+                    self._check_residual(out_name, r2)
                     mask1 = r1[out_name] >= r2[out_name]
                     mask2 = r1[out_name] < r2[out_name]
 
@@ -255,6 +289,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                     for _ in range(self.maxiter):
                         x = 0.5 * xp + 0.5 * xn
                         r = self.run(inputs, outputs, out_name, x)
+                        self._check_residual(out_name, r)
                         mask_p = r[out_name] >= 0
                         mask_n = r[out_name] < 0
                         xp[mask_p] = x[mask_p]
-- 
2.43.0


From eda17d03764bdc100270742ccf434c6527ab7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 26/43] fix: differentiate implicit outputs at the current
 point and with the full residual Jacobian

---
 omtools/comps/implicit_component.py | 41 +++++++++++++++++++----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 41e717e..7626db7 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -298,20 +298,24 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                     outputs[out_name] = 0.5 * xp + 0.5 * xn
 
     def linearize(self, inputs, outputs, jacobian):
+        # evaluate residuals at current inputs and outputs
         self._set_values(inputs, outputs)
-        in_exprs = set()
-        for inputs in self.all_inputs.values():
-            in_exprs = in_exprs.union(inputs)
+        self.prob.run_model()
         res_names = list(self.group.res_out_map.keys())
         out_names = list(self.all_inputs.keys())
+        in_names = {
+            in_expr.name
+            for in_exprs in self.all_inputs.values() for in_expr in in_exprs
+        }
 
         jac = self.prob.compute_totals(
             of=res_names,
-            wrt=[in_expr.name for in_expr in list(in_exprs)] + out_names,
+            wrt=sorted(in_names.union(out_names)),
         )
 
         for res_expr in self.group._root.dependencies:
-            if isinstance(res_expr, Subsystem) == False:
+            if isinstance(res_expr, Subsystem) == False and isinstance(
+                    res_expr, ExplicitOutput) == False:
                 res_name = res_expr.name
                 out_name = self.group.res_out_map[res_name]
                 for in_expr in self.all_inputs[out_name]:
@@ -319,14 +323,23 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                                                            in_expr.name]
                 jacobian[out_name, out_name] = jac[res_name, out_name]
 
-                self.derivs[out_name] = np.diag(
-                    jac[res_name, out_name]).reshape(res_expr.shape)
+                # residual wrt each output
+                for name in out_names:
+                    self.derivs[out_name, name] = jac[res_name, name]
 
     def solve_linear(self, d_outputs, d_residuals, mode):
-        for out_name in self.group.res_out_map.values():
-            if mode == 'fwd':
-                d_outputs[out_name] += 1. / self.derivs[
-                    out_name] * d_residuals[out_name]
-            else:
-                d_residuals[out_name] += 1. / self.derivs[
-                    out_name] * d_outputs[out_name]
+        out_names = list(self.group.res_out_map.values())
+        derivs = np.block([[self.derivs[of, wrt] for wrt in out_names]
+                           for of in out_names])
+        if mode == 'fwd':
+            rhs, sol = d_residuals, d_outputs
+        else:
+            rhs, sol = d_outputs, d_residuals
+            derivs = derivs.T
+        vec = np.linalg.solve(
+            derivs,
+            np.concatenate([rhs[name].flatten() for name in out_names]),
+        )
+        for name in out_names:
+            sol[name] = vec[:rhs[name].size].reshape(rhs[name].shape)
+            vec = vec[rhs[name].size:]
-- 
2.43.0


From bd0b0462e204134c287b5aa1fd378ba8a067e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 27/43] fix: allow an input that is declared twice to be
 indexed through both declarations

---
 omtools/core/variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 19f6ad9..207043f 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -189,7 +189,9 @@ class Variable():
         if self._getitem_called == False:
             self._getitem_called = True
             self._decomp = Variable(shape=self.shape, val=self.val)
-            self._decomp.name = 'decompose_' + self.name
+            # different expressions may share a name, e.g. an input that
+            # is declared twice
+            self._decomp.name = 'decompose_' + self.name + self._id
             self._decomp.add_dependency_node(self)
 
         # store key as a tuple of tuples of ints
-- 
2.43.0


From 0875b0b8ad9c3aefa237c5b0c00ee10355d62483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 28/43] fix: accept the shapes of reduced expressions in vector
 inner products

---
 omtools/std/dot.py   | 2 +-
 omtools/std/inner.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/std/dot.py b/omtools/std/dot.py
index 3464b1c..f32e8fd 100644
--- a/omtools/std/dot.py
+++ b/omtools/std/dot.py
@@ -40,7 +40,7 @@ def dot(expr1: Variable, expr2: Variable, axis=None):
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-            in_shape=expr1.shape[0],
+            in_shape=int(expr1.shape[0]),
             in_vals=[expr1.val, expr2.val],
         )
     else:
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index 66bfb86..d5f7eee 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -35,7 +35,7 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-            in_shape=expr1.shape[0],
+            in_shape=int(expr1.shape[0]),
             in_vals=[expr1.val, expr2.val],
         )
 
-- 
2.43.0


From 959db22d119477d8b62ae76ce22001bb04c5bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 29/43] fix: differentiate arcsin for inputs of rank above two

---
 omtools/comps/arcsincomp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/arcsincomp.py b/omtools/comps/arcsincomp.py
index 8414621..5baa595 100644
--- a/omtools/comps/arcsincomp.py
+++ b/omtools/comps/arcsincomp.py
@@ -48,7 +48,8 @@ class ArcsinComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = (1.0 / np.sqrt(1.0 - inputs[in_name]**2))
+        partials[out_name,
+                 in_name] = (1.0 / np.sqrt(1.0 - inputs[in_name]**2)).flatten()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 8881a8c1d2678a32790e90bd57ff678f5de9684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 30/43] fix: keep the shape of a vector that is multiplied by
 matmat

---
 omtools/comps/matmat_comp.py | 8 ++++++--
 omtools/std/matmat.py        | 6 ++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/omtools/comps/matmat_comp.py b/omtools/comps/matmat_comp.py
index 3695a84..83b8a59 100644
--- a/omtools/comps/matmat_comp.py
+++ b/omtools/comps/matmat_comp.py
@@ -49,10 +49,13 @@ class MatMatComp(ExplicitComponent):
         input1_size = np.prod(in_shapes[0])
         input2_size = np.prod(in_shapes[1])
 
+        # multiplication by a vector
+        num_cols = in_shapes[1][1] if len(in_shapes[1]) > 1 else 1
+
         r0 = np.repeat(np.arange(output_size), in_shapes[0][1])
         c0 = np.tile(
             np.arange(input1_size).reshape(in_shapes[0]),
-            in_shapes[1][1]).flatten()
+            num_cols).flatten()
 
         self.declare_partials(out_name, in_names[0], rows=r0, cols=c0)
 
@@ -79,8 +82,9 @@ class MatMatComp(ExplicitComponent):
         partials[out_name, in_names[0]] = np.tile(
             np.transpose(inputs[in_names[1]]).flatten(), in_shapes[0][0])
 
+        num_cols = in_shapes[1][1] if len(in_shapes[1]) > 1 else 1
         partials[out_name, in_names[1]] = np.tile(inputs[in_names[0]],
-                                                  in_shapes[1][1]).flatten()
+                                                  num_cols).flatten()
 
 
 if __name__ == "__main__":
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 6a5f919..81bb285 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -40,13 +40,11 @@ def matmat(mat1, mat2):
     elif mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 1:
         out.shape = (mat1.shape[0], )
 
-        mat2_shape = (mat2.shape[0], 1)
-
         out.build = lambda: MatMatComp(
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
-            in_shapes=[mat1.shape, mat2_shape],
-            in_vals=[mat1.val, (mat2.val * np.ones(mat2.shape)).reshape(mat2_shape)],
+            in_shapes=[mat1.shape, mat2.shape],
+            in_vals=[mat1.val, mat2.val * np.ones(mat2.shape)],
             out_shape=out.shape,
         )
     else:
-- 
2.43.0


From 99045264eadd0919942784a60305076a4f776719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 31/43] fix: derivatives through coupled outputs of an implicit
 component

OpenMDAO drops an output from the derivative when no partial of its
residual with respect to the input is declared; declare the (zero) partials of outputs
that depend on an input only through another output.
---
 omtools/comps/implicit_component.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 7626db7..40e67e2 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -123,6 +123,21 @@ def _post_setup(func: Callable) -> Callable:
                     pass
                 else:
                     self.prob.model.add_design_var(out_name)
+        # an output also depends on the inputs to the residuals of the
+        # outputs in its own residual; these partials are zero
+        depends = {
+            out_name: {in_expr.name
+                       for in_expr in in_exprs}
+            for out_name, in_exprs in self.all_inputs.items()
+        }
+        for _ in depends:
+            for names in depends.values():
+                for name in names.intersection(depends):
+                    names.update(depends[name])
+        for out_name, names in depends.items():
+            direct = {in_expr.name for in_expr in self.all_inputs[out_name]}
+            for name in sorted(names - direct - {out_name}):
+                self.declare_partials(of=out_name, wrt=name)
         self.prob.setup()
 
         # set initial values for inputs and output
-- 
2.43.0


From fe44467b76891accee2502060c86974eb2b9986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 32/43] fix: report brackets without a change of sign of the
 residual

Bisection moved to one end of the bracket and reported that as the
solution; raise AnalysisError, as for a residual that is not a number.
---
 omtools/comps/implicit_component.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 40e67e2..a7617e5 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -251,10 +251,15 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 out_name: np.array(outputs[out_name])
                 for out_name in self._bracketed_outputs()
             }
-            self._solve_bracketed(inputs, outputs)
+            unsolved = self._solve_bracketed(inputs, outputs)
             if self._coupled_brackets() == False or all(
                     np.allclose(outputs[out_name], val, rtol=1e-14, atol=1e-14)
                     for out_name, val in previous.items()):
+                if unsolved:
+                    raise AnalysisError(
+                        "No change of sign of the residual found within the "
+                        "brackets for " + ', '.join(unsolved) + " in " +
+                        self.pathname)
                 return
         raise AnalysisError(
             "Outputs found by bracketing did not converge in " + self.pathname)
@@ -276,6 +281,8 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                                 " is not a number within its bracket")
 
     def _solve_bracketed(self, inputs, outputs):
+        # outputs for which the residual does not change sign
+        unsolved = []
         for res_expr in self.group._root.dependencies:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
@@ -312,6 +319,16 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
 
                     outputs[out_name] = 0.5 * xp + 0.5 * xn
 
+                    rp = self.run(inputs, outputs, out_name, xp)[out_name]
+                    rn = self.run(inputs, outputs, out_name, xn)[out_name]
+                    scale = max(np.max(np.abs(r1[out_name])),
+                                np.max(np.abs(r2[out_name])))
+                    solved = np.logical_and(rp >= 0, rn <= 0)
+                    small = np.minimum(np.abs(rp), np.abs(rn)) <= 1e-8 * scale
+                    if np.all(np.logical_or(solved, small)) == False:
+                        unsolved.append(out_name)
+        return unsolved
+
     def linearize(self, inputs, outputs, jacobian):
         # evaluate residuals at current inputs and outputs
         self._set_values(inputs, outputs)
-- 
2.43.0


From ffd9b9134685f8df5cf6fd9d3395222f1e58d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:47 +0000
Subject: [PATCH 33/43] fix: set up again after an interrupted setup, without
 state kept during setup

---
 omtools/comps/implicit_component.py |  9 ++-------
 omtools/core/group.py               | 13 ++++---------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index a7617e5..90f84ff 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -38,7 +38,7 @@ def _remove_nonresiduals(root: Variable):
 def _post_setup(func: Callable) -> Callable:
     def _build_problem(self):
         # setup of a base class, called from an overriding method
-        if self._in_setup == True:
+        if type(self).setup is not _build_problem:
             func(self)
             return
 
@@ -47,11 +47,7 @@ def _post_setup(func: Callable) -> Callable:
             self._create_problem()
         self._was_setup = True
 
-        self._in_setup = True
-        try:
-            func(self)
-        finally:
-            self._in_setup = False
+        func(self)
         _setup_problem(self)
 
     def _setup_problem(self):
@@ -194,7 +190,6 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self._create_problem()
         self.maxiter = maxiter
         self.n2 = n2
-        self._in_setup = False
         self._was_setup = False
 
     def _create_problem(self):
diff --git a/omtools/core/group.py b/omtools/core/group.py
index c611472..ffeb2e3 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -36,7 +36,7 @@ def _post_setup(func: Callable) -> Callable:
         model execution
         """
         # setup of a base class, called from an overriding method
-        if self._in_setup == True:
+        if type(self).setup is not _sort_expressions_and_build_components:
             func(self)
             return
 
@@ -49,13 +49,9 @@ def _post_setup(func: Callable) -> Callable:
         # so that setting up again builds the same subsystems
         self._reset_declarations()
 
-        self._in_setup = True
-        try:
-            # The user-defined Group.setup() method
-            func(self)
-            _build_components(self)
-        finally:
-            self._in_setup = False
+        # The user-defined Group.setup() method
+        func(self)
+        _build_components(self)
         self._built_outside_setup = self._static_mode
 
     def _build_components(self):
@@ -189,7 +185,6 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.res_out_map: Dict[str, str] = dict()
         self.brackets_map = None
         self.out_vals = dict()
-        self._in_setup = False
         self._built_outside_setup = False
         self._declared_outside_setup = None
 
-- 
2.43.0


From 50ea31367a4b2c3e54fe80cdb886c8261d737aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 34/43] fix: derivatives of a group set up again within a new
 or changed parent

OpenMDAO keeps the names of variables connected within a group from one
setup to the next; unnamed expressions are named anew in every setup.
---
 omtools/core/group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index ffeb2e3..02cfc59 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -49,6 +49,10 @@ def _post_setup(func: Callable) -> Callable:
         # so that setting up again builds the same subsystems
         self._reset_declarations()
 
+        # OpenMDAO keeps names of variables found in a previous setup,
+        # but names of unnamed expressions change
+        self._scope_cache.clear()
+
         # The user-defined Group.setup() method
         func(self)
         _build_components(self)
-- 
2.43.0


From 2c5cc92addb1d8b9096b0e7f35e0e1cd3aed7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 35/43] fix: reject operands of +, -, * and / that are neither
 expressions nor constants

Expressions with such an operand were accepted but no component computed
them; registered outputs were missing and expressions using them were
computed from a default value.
---
 omtools/core/variable.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 207043f..bca0485 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -21,6 +21,16 @@ def slice_to_tuple(key: slice, size: int) -> tuple:
     return (key.start, key.stop, key.step)
 
 
+def check_operands(*operands):
+    """
+    Check that operands of an arithmetic operation are expressions or
+    constants. No component computes an expression of anything else.
+    """
+    for operand in operands:
+        if not isinstance(operand, (Variable, numbers.Number, np.ndarray)):
+            raise TypeError(operand, " is not an Variable object or literal")
+
+
 def distinct_operands(*operands):
     """
     Replace repeated operands with copies. An OpenMDAO ``Component``
@@ -466,6 +476,7 @@ class ElementwiseAddition(Variable):
     addition
     """
     def initialize(self, expr1, expr2):
+        check_operands(expr1, expr2)
         expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
@@ -530,6 +541,7 @@ class ElementwiseSubtraction(Variable):
     subtraction
     """
     def initialize(self, expr1, expr2):
+        check_operands(expr1, expr2)
         expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
@@ -598,6 +610,7 @@ class ElementwiseMultiplication(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        check_operands(expr1, expr2)
         expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
@@ -668,6 +681,7 @@ class ElementwiseDivision(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        check_operands(expr1, expr2)
         expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
-- 
2.43.0


From 5951b5cf1b9bd48e0d1cc793d9b6e37df83151bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 36/43] fix: a declaration with an unacceptable default leaves
 the options as they were

---
 omtools/utils/options_dictionary.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/omtools/utils/options_dictionary.py b/omtools/utils/options_dictionary.py
index b3e938c..142c5d7 100644
--- a/omtools/utils/options_dictionary.py
+++ b/omtools/utils/options_dictionary.py
@@ -193,7 +193,7 @@ class OptionsDictionary(object):
 
         return '\n'.join(text)
 
-    def _assert_valid(self, name, value):
+    def _assert_valid(self, name, value, meta=None):
         """
         Check whether the given value is valid, where the key has already been declared.
 
@@ -207,8 +207,11 @@ class OptionsDictionary(object):
             The key for the declared option.
         value : object
             The default or user-set value to check for value, type, lower, and upper.
+        meta : dict or None
+            The entry to check against; the one declared under this name if not given.
         """
-        meta = self._dict[name]
+        if meta is None:
+            meta = self._dict[name]
         values = meta['values']
         types = meta['types']
         lower = meta['lower']
@@ -290,7 +293,7 @@ class OptionsDictionary(object):
 
         default_provided = default is not _undefined
 
-        self._dict[name] = {
+        meta = {
             'value': default,
             'values': values,
             'types': types,
@@ -304,7 +307,9 @@ class OptionsDictionary(object):
 
         # If a default is given, check for validity
         if default_provided:
-            self._assert_valid(name, default)
+            self._assert_valid(name, default, meta)
+
+        self._dict[name] = meta
 
     def undeclare(self, name):
         """
-- 
2.43.0


From ce7dd2b4670ee9f251ae62f75228e77058e0a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 37/43] fix: options declared with a list or set of types
 accept values of these types

---
 omtools/utils/options_dictionary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/utils/options_dictionary.py b/omtools/utils/options_dictionary.py
index 142c5d7..211d852 100644
--- a/omtools/utils/options_dictionary.py
+++ b/omtools/utils/options_dictionary.py
@@ -291,6 +291,10 @@ class OptionsDictionary(object):
             raise RuntimeError("'types' and 'values' were both specified for option '%s'." %
                                name)
 
+        # isinstance takes a type or a tuple of types
+        if isinstance(types, (set, list)):
+            types = tuple(types)
+
         default_provided = default is not _undefined
 
         meta = {
-- 
2.43.0


From a3626be1d729df5c80f43649c28a13fdb2c945c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 38/43] fix: derivative of an expression raised to the power
 zero at zero

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index ee36e68..7247218 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -85,7 +85,8 @@ class PowerCombinationComp(ArrayExplicitComponent):
                 b = power
                 if in_name == in_name2:
                     a = power
-                    b = power - 1.
+                    # the derivative of a constant is zero, also at zero
+                    b = np.where(np.asarray(power) == 0, 0., power - 1.)
                 deriv *= a * inputs[in_name2]**b
 
             partials[out_name, in_name] = deriv.flatten()
-- 
2.43.0


From 018eae4c7b9c0879fc7ea75fc92446308ac443f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 39/43] fix: outputs created before and assigned after adding a
 subsystem may use the outputs of the subsystem

---
 omtools/core/graph.py | 33 +++++++++++++++++++++++++++++++++
 omtools/core/group.py |  6 +++++-
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/omtools/core/graph.py b/omtools/core/graph.py
index 2443949..5b3429f 100644
--- a/omtools/core/graph.py
+++ b/omtools/core/graph.py
@@ -1,4 +1,5 @@
 from omtools.core.variable import Variable
+from omtools.core.subsystem import Subsystem
 from typing import List
 
 
@@ -34,6 +35,38 @@ def remove_indirect_dependencies(node: Variable):
             node.remove_dependency_by_index(i)
 
 
+def remove_feedback_to_subsystems(nodes: List[Variable]):
+    """
+    Remove the dependencies of subsystems on outputs that are computed
+    from outputs of the same subsystems. A subsystem depends on all
+    outputs created before it is added, but an output created before,
+    and assigned after, may use the outputs of the subsystem.
+
+    Parameters
+    ----------
+    nodes: List[Variable]
+        All nodes in DAG
+    """
+    dependents = dict()
+    for node in nodes:
+        for dependency in node.dependencies:
+            if isinstance(node, Subsystem) == False or isinstance(
+                    dependency, Subsystem):
+                dependents.setdefault(dependency, []).append(node)
+    for node in nodes:
+        if isinstance(node, Subsystem):
+            visited = {node}
+            stack = [node]
+            while stack != []:
+                for dependent in dependents.get(stack.pop(), []):
+                    if dependent not in visited:
+                        visited.add(dependent)
+                        stack.append(dependent)
+            for dependency in list(node.dependencies):
+                if dependency in visited:
+                    node.remove_dependency_node(dependency)
+
+
 def topological_sort(node: Variable) -> List[Variable]:
     """
     Perform a topological sort on the Directed Acyclic Graph (DAG).
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 02cfc59..d472583 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -8,7 +8,7 @@ from openmdao.core.system import System
 # from omtools.core._group import _Group
 from omtools.core.explicit_output import ExplicitOutput
 from omtools.core.variable import Variable
-from omtools.core.graph import remove_indirect_dependencies, topological_sort
+from omtools.core.graph import remove_feedback_to_subsystems, remove_indirect_dependencies, topological_sort
 from omtools.core.implicit_output import ImplicitOutput
 from omtools.core.indep import Indep
 from omtools.core.input import Input
@@ -72,6 +72,10 @@ def _post_setup(func: Callable) -> Callable:
                     if not isinstance(node, Indep):
                         node.add_dependency_node(indep)
 
+        # Outputs created before, but computed from outputs of a
+        # subsystem are not its inputs
+        remove_feedback_to_subsystems(list(self.nodes.values()))
+
         # Clean up graph, removing dependencies that do not constrain
         # execution order
         for node in self.nodes.values():
-- 
2.43.0


From c407aead2befe389e3aa6a1d47c70460c90e95d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 40/43] fix: inner counts negative axes from the back in its
 derivatives too

---
 omtools/std/inner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index d5f7eee..06ad663 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -40,6 +40,9 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         )
 
     else:
+        # count axes from the front; derivatives have more axes than operands
+        axes = tuple([range(len(expr.shape))[ax] for ax in np.ravel(along)]
+                     for along, expr in zip(axes, (expr1, expr2)))
         new_in0_shape = np.delete(list(expr1.shape), axes[0])
         new_in1_shape = np.delete(list(expr2.shape), axes[1])
         out.shape = tuple(np.append(new_in0_shape, new_in1_shape))
-- 
2.43.0


From 33b8bfd9225896fa0188071c08761ee94d544885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:34 +0000
Subject: [PATCH 41/43] fix: expand rejects indices that are permuted or
 missing in the output

---
 omtools/std/expand.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 6a84afe..726515c 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -42,7 +42,9 @@ def expand(expr: Variable, shape: tuple, indices=None):
             _,
         ) = decompose_shape_tuple(shape, expand_indices)
 
-        if in_shape != expr.shape:
+        # the component keeps the order of the axes of its input
+        kept = ''.join(index for index in out_indices if index in in_indices)
+        if in_shape != expr.shape or kept != in_indices:
             raise ValueError('Shape or indices is invalid')
 
         out.build = lambda: ArrayExpansionComp(
-- 
2.43.0


From a356cf1f5bff88d070011bb21ce04e9bd1913f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 42/43] fix: reject constants that cannot be broadcast to the
 shape of an expression

---
 omtools/core/variable.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index bca0485..e934f98 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -25,10 +25,20 @@ def check_operands(*operands):
     """
     Check that operands of an arithmetic operation are expressions or
     constants. No component computes an expression of anything else.
+    Constants may be broadcast to the shape of an expression, but not
+    the other way around.
     """
     for operand in operands:
         if not isinstance(operand, (Variable, numbers.Number, np.ndarray)):
             raise TypeError(operand, " is not an Variable object or literal")
+    shapes = [op.shape for op in operands if isinstance(op, Variable)]
+    for operand in operands:
+        if isinstance(operand, np.ndarray):
+            for shape in shapes:
+                if np.broadcast_shapes(operand.shape, shape) != shape:
+                    raise ValueError(
+                        "A constant of shape {} does not suit an expression "
+                        "of shape {}".format(operand.shape, shape))
 
 
 def distinct_operands(*operands):
-- 
2.43.0


From ed7087b592cf258ae0dc2b134e6221cfab60199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:51 +0000
Subject: [PATCH 43/43] fix: keep the strings in the code of an example when
 removing an emptied docstring

---
 omtools/utils/generate_example_scripts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/utils/generate_example_scripts.py b/omtools/utils/generate_example_scripts.py
index 8b819fe..0561121 100644
--- a/omtools/utils/generate_example_scripts.py
+++ b/omtools/utils/generate_example_scripts.py
@@ -132,7 +132,7 @@ def export_examples():
                                 # write example class
                                 source = re.sub('.*:param.*:.*\n', '',
                                                 inspect.getsource(obj))
-                                source = re.sub('\n.*"""\n.*"""', '', source)
+                                source = re.sub('\n *"""\n *"""', '', source)
                                 f.write(source)
                                 f.write('\n\n')
 
-- 
2.43.0

