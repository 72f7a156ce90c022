From bd0a3e41fe710c1649a2a475486feb76619868ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:23 +0000
Subject: [PATCH 01/89] fix: unitary of a circuit without operations is the
 identity

---
 src/python/zquantum/core/circuits/_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 4fd1a80..8c7185e 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -121,6 +121,9 @@ class Circuit:
         For performance reasons, this method will construct numpy matrix if circuit does
         not have free parameters, and a sympy matrix otherwise.
         """
+        if not self.operations:
+            return np.eye(2**self.n_qubits)
+
         # The `reversed` iterator reflects the fact the matrices are multiplied
         # when composing linear operations (i.e. first operation is the rightmost).
         lifted_matrices = [
-- 
2.43.0


From d5d9c8605ef6ef520c92da2175d5ad5fe2dfd151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:45 +0000
Subject: [PATCH 02/89] fix: bind all mapped symbols simultaneously

---
 src/python/zquantum/core/circuits/_gates.py      | 3 ++-
 src/python/zquantum/core/circuits/_operations.py | 2 +-
 src/python/zquantum/core/wavefunction.py         | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_gates.py b/src/python/zquantum/core/circuits/_gates.py
index da7b523..c2f085c 100644
--- a/src/python/zquantum/core/circuits/_gates.py
+++ b/src/python/zquantum/core/circuits/_gates.py
@@ -357,7 +357,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
diff --git a/src/python/zquantum/core/circuits/_operations.py b/src/python/zquantum/core/circuits/_operations.py
index 93f43ab..0877b47 100644
--- a/src/python/zquantum/core/circuits/_operations.py
+++ b/src/python/zquantum/core/circuits/_operations.py
@@ -74,7 +74,7 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index e7e9736..d07b359 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -186,7 +186,7 @@ class Wavefunction:
         if not self.free_symbols:
             return self
         assert isinstance(self._amplitude_vector, Matrix)
-        result = self._amplitude_vector.subs(symbol_map)
+        result = self._amplitude_vector.subs(symbol_map, simultaneous=True)
 
         try:
             return type(self)(result)
-- 
2.43.0


From 1fb495b7c793b10d0d1a19f6cfdd7a8b34fc3cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:45 +0000
Subject: [PATCH 03/89] fix: collect definitions of custom gates inside
 wrappers

---
 src/python/zquantum/core/circuits/_circuit.py | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 8c7185e..3703624 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -25,9 +25,17 @@ def _circuit_size_by_operations(operations):
     )
 
 
-def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+def _unwrapped_gate(operation):
+    """The gate inside any control and dagger wrappers, None for non-gate operations."""
+    gate = getattr(operation, "gate", None)
+    while isinstance(gate, (_gates.ControlledGate, _gates.Dagger)):
+        gate = gate.wrapped_gate
+    return gate
+
+
+def _is_custom_gate(gate):
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -98,9 +106,9 @@ class Circuit:
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
-            for operation in self.operations
-            if _operation_uses_custom_gate(operation)
+            gate.matrix_factory.gate_definition
+            for gate in map(_unwrapped_gate, self.operations)
+            if _is_custom_gate(gate)
         )
         unique_operation_dict = {}
         for gate_def in custom_gate_definitions:
-- 
2.43.0


From a7f4ee562c09744567c428a5095b5d87fdec95cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:20 +0000
Subject: [PATCH 04/89] fix: deserialize gate parameters over symbols of any
 name

---
 src/python/zquantum/core/circuits/_serde.py | 41 +++++++++------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index ded3b7f..6c9724a 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -4,7 +4,7 @@
 import json
 import re
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Union
+from typing import Iterable, List, Mapping
 
 import sympy
 from zquantum.core.typing import DumpTarget, LoadSource
@@ -21,28 +21,23 @@ def serialize_expr(expr: sympy.Expr):
     return str(expr)
 
 
-def _make_symbols_map(
-    symbol_names: Iterable[str],
-) -> Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]]:
-    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = {}
-    for name in symbol_names:
-        # Check if the symbol name has brackets, such as "x[4]". Such symbol names will
-        # occur in circuits imported from Qiskit when the Qiskit circuit was
-        # parameterized using a Qiskit ParameterVector.
-        match = re.search(r"^(.*)\[([0-9]+)\]$", name)
-        if match:
-            symbols_map.setdefault(match.group(1), {})[
-                int(match.group(2))
-            ] = sympy.Symbol(name)
-        else:
-            symbols_map[name] = sympy.Symbol(name)
-
-    return symbols_map
-
-
 def deserialize_expr(expr_str, symbol_names):
-    symbols_map = _make_symbols_map(symbol_names)
-    return sympy.sympify(expr_str, locals=symbols_map)
+    # Symbols can have names that sympy would parse as something else, or not at all,
+    # e.g. "lambda" or "x[4]", so we parse placeholders instead of them.
+    names = sorted(map(str, symbol_names), key=len, reverse=True)
+    if not names:
+        return sympy.sympify(expr_str)
+
+    placeholders = {name: f"_symbol_{i}_" for i, name in enumerate(names)}
+    parsed_str = re.sub(
+        rf"(?<![\w.])(?:{'|'.join(map(re.escape, names))})(?![\w.(\[])",
+        lambda match: placeholders[match.group(0)],
+        expr_str,
+    )
+    return sympy.sympify(
+        parsed_str,
+        locals={placeholders[name]: sympy.Symbol(name) for name in names},
+    )
 
 
 def builtin_gate_by_name(name):
@@ -270,7 +265,7 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
+    symbol_names = dict_.get("free_symbols", [])
     return gate_def(
         *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
     )
-- 
2.43.0


From 2625e8727fef3a3fb39117d7fbe322e1d09d0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:17 +0000
Subject: [PATCH 05/89] fix: keep full precision of parameters in serialized
 circuits

---
 src/python/zquantum/core/circuits/_serde.py | 26 +++++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index 6c9724a..b4fb3ec 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -7,6 +7,7 @@ from functools import singledispatch
 from typing import Iterable, List, Mapping
 
 import sympy
+from sympy.printing.str import StrPrinter
 from zquantum.core.typing import DumpTarget, LoadSource
 
 from ..serialization import ensure_open
@@ -17,8 +18,21 @@ CIRCUIT_SCHEMA = SCHEMA_VERSION + "-circuit-v2"
 CIRCUITSET_SCHEMA = SCHEMA_VERSION + "-circuitset-v2"
 
 
+class _ExprPrinter(StrPrinter):
+    """Prints double precision numbers with enough digits to restore them exactly."""
+
+    def _print_Float(self, expr):
+        return repr(float(expr)) if expr._prec == 53 else super()._print_Float(expr)
+
+
 def serialize_expr(expr: sympy.Expr):
-    return str(expr)
+    return _ExprPrinter().doprint(expr) if isinstance(expr, sympy.Expr) else str(expr)
+
+
+def _round_to_double_precision(expr):
+    return expr.xreplace(
+        {number: sympy.Float(float(number)) for number in expr.atoms(sympy.Float)}
+    )
 
 
 def deserialize_expr(expr_str, symbol_names):
@@ -26,7 +40,7 @@ def deserialize_expr(expr_str, symbol_names):
     # e.g. "lambda" or "x[4]", so we parse placeholders instead of them.
     names = sorted(map(str, symbol_names), key=len, reverse=True)
     if not names:
-        return sympy.sympify(expr_str)
+        return _round_to_double_precision(sympy.sympify(expr_str))
 
     placeholders = {name: f"_symbol_{i}_" for i, name in enumerate(names)}
     parsed_str = re.sub(
@@ -34,9 +48,11 @@ def deserialize_expr(expr_str, symbol_names):
         lambda match: placeholders[match.group(0)],
         expr_str,
     )
-    return sympy.sympify(
-        parsed_str,
-        locals={placeholders[name]: sympy.Symbol(name) for name in names},
+    return _round_to_double_precision(
+        sympy.sympify(
+            parsed_str,
+            locals={placeholders[name]: sympy.Symbol(name) for name in names},
+        )
     )
 
 
-- 
2.43.0


From c53bc6cef04e91dc79b41430f9ba14c2082777af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 06/89] fix: decomposed circuits keep the register of the
 original

---
 .../zquantum/core/decompositions/_zquantum_decompositions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
index cb0eae3..7bc2c19 100644
--- a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
+++ b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
@@ -49,4 +49,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_zquantum_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules),
+        n_qubits=circuit.n_qubits,
+    )
-- 
2.43.0


From b490c38930e7abc64922369c6084ea3f0281a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:28 +0000
Subject: [PATCH 07/89] fix: match gate parameters to qubits in the order given

---
 src/python/zquantum/core/circuits/_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_generators.py b/src/python/zquantum/core/circuits/_generators.py
index e1619db..55c3bf1 100644
--- a/src/python/zquantum/core/circuits/_generators.py
+++ b/src/python/zquantum/core/circuits/_generators.py
@@ -52,7 +52,7 @@ def apply_gate_to_qubits(
     Returns:
         circuit with the gate added to the specified qubits
     """
-    unique_qubit_idx = set(qubit_indices)
+    unique_qubit_idx = list(dict.fromkeys(qubit_indices))
 
     if len(unique_qubit_idx) != len(qubit_indices):
         warn("Duplicate qubits were passed! Duplicates will be ignored.")
-- 
2.43.0


From 3b6d108b2ce4d37f551b2eea80f9842d8968f4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:28 +0000
Subject: [PATCH 08/89] fix: raise the error for an undefined layer type

---
 src/python/zquantum/core/circuits/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/layouts.py b/src/python/zquantum/core/circuits/layouts.py
index a0875a2..97528a0 100644
--- a/src/python/zquantum/core/circuits/layouts.py
+++ b/src/python/zquantum/core/circuits/layouts.py
@@ -165,7 +165,7 @@ def build_circuit_layers_and_connectivity(
     elif layer_type == "nearest-neighbor":
         return _build_circuit_layers_and_connectivity_nearest_neighbors(x_dimension)
     else:
-        ValueError("Layer type {0} is not defined".format(layer_type))
+        raise ValueError("Layer type {0} is not defined".format(layer_type))
 
 
 def _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension):
-- 
2.43.0


From a0f7ad5a69edbc5a342bac6fe23de9c6124a46f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:42 +0000
Subject: [PATCH 09/89] fix: random circuits have the requested register

---
 src/python/zquantum/core/circuits/_testing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_testing.py b/src/python/zquantum/core/circuits/_testing.py
index e68cbca..244175c 100644
--- a/src/python/zquantum/core/circuits/_testing.py
+++ b/src/python/zquantum/core/circuits/_testing.py
@@ -63,8 +63,11 @@ def create_random_circuit(
         ],
     )
 
+    if n_qubits < 2:
+        all_gates_lists = all_gates_lists[[0, 2]]
+
     # Loop to add gates to circuit
-    circuit = Circuit()
+    circuit = Circuit(n_qubits=n_qubits)
     for _ in range(n_gates):
         # Pick gate type
         gates_list = rng.choice(all_gates_lists)
-- 
2.43.0


From 9552ef68cc7a82d44a8dc9eeac490ecdf90d6fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:33 +0000
Subject: [PATCH 10/89] fix: undo rejected slice assignments to a wavefunction

---
 src/python/zquantum/core/wavefunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index d07b359..9c86146 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -1,6 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
+from copy import copy
 from math import log2
 from typing import Any, Dict, List, Sequence, Set, Union
 from warnings import warn
@@ -110,7 +111,7 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
+        old_val = copy(self._amplitude_vector[idx])
         self._amplitude_vector[idx] = val
 
         try:
-- 
2.43.0


From 4aa34dcad87b80a129da6db7f58d2f81368e2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:33 +0000
Subject: [PATCH 11/89] fix: tolerate rounding in norm of partially symbolic
 wavefunctions

---
 src/python/zquantum/core/wavefunction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 9c86146..40f3c4c 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -96,7 +96,9 @@ class Wavefunction:
             )
             probs_of_ground_entries = np.sum(np.abs(numbers) ** 2)
 
-            if probs_of_ground_entries > 1.0:
+            if probs_of_ground_entries > 1.0 and not np.isclose(
+                probs_of_ground_entries, 1.0
+            ):
                 raise ValueError(
                     "Ground entries in vector already exceeding probability of 1.0!"
                 )
-- 
2.43.0


From 9bde05fa2a07e1ce205624cf3e0a981f56378f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:33 +0000
Subject: [PATCH 12/89] fix: equality of numeric wavefunctions is a single
 boolean

---
 src/python/zquantum/core/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 40f3c4c..6d8bfef 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -131,7 +131,7 @@ class Wavefunction:
         if not isinstance(other, Wavefunction):
             return False
 
-        return self._amplitude_vector == other._amplitude_vector
+        return np.array_equal(self._amplitude_vector, other._amplitude_vector)
 
     @staticmethod
     def zero_state(n_qubits: int) -> "Wavefunction":
-- 
2.43.0


From 5caa7ba4b933c209332167ed949b173649179cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:16 +0000
Subject: [PATCH 13/89] fix: amplitudes of numeric wavefunctions form a flat
 vector

---
 src/python/zquantum/core/wavefunction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 6d8bfef..efb7907 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -57,7 +57,10 @@ class Wavefunction:
             )
 
         try:
-            self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex)
+            # Numeric sympy matrices are two-dimensional, hence we need to flatten
+            self._amplitude_vector = np.asarray(
+                amplitude_vector, dtype=complex
+            ).flatten()
         except TypeError:
             self._amplitude_vector = Matrix(amplitude_vector)
 
-- 
2.43.0


From 67b7af6b06dec214740973d1773b618d544b33c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:48 +0000
Subject: [PATCH 14/89] fix: assignments to a wavefunction succeed or leave it
 unchanged

---
 src/python/zquantum/core/wavefunction.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index efb7907..2c805bd 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -1,7 +1,6 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
-from copy import copy
 from math import log2
 from typing import Any, Dict, List, Sequence, Set, Union
 from warnings import warn
@@ -89,7 +88,7 @@ class Wavefunction:
             or isinstance(arr, Matrix)
             and not arr.free_symbols
         ):
-            probs_of_ground_entries = np.sum(np.abs(arr) ** 2)
+            probs_of_ground_entries = np.sum(np.abs(np.array(arr, dtype=complex)) ** 2)
 
             if not np.isclose(probs_of_ground_entries, 1.0):
                 raise ValueError("Vector does not result in a unit probability.")
@@ -116,16 +115,20 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = copy(self._amplitude_vector[idx])
-        self._amplitude_vector[idx] = val
+        amplitude_vector = self._amplitude_vector.copy()
+        amplitude_vector[idx] = val
 
         try:
-            self._check_normalization(self._amplitude_vector)
+            self._check_normalization(amplitude_vector)
         except ValueError:
-            self._amplitude_vector[idx] = old_val
-
             raise ValueError("This assignment violates probability unity.")
 
+        if isinstance(amplitude_vector, Matrix) and not amplitude_vector.free_symbols:
+            amplitude_vector = _cast_sympy_matrix_to_numpy(
+                amplitude_vector, complex=True
+            )
+        self._amplitude_vector = amplitude_vector
+
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
         return f"Wavefunction({cast_wf})"
-- 
2.43.0


From 04f4118e97c198c8944345364cedebaa101d318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:11 +0000
Subject: [PATCH 15/89] fix: remove imaginary parts of correlations of
 expectation values

---
 src/python/zquantum/core/measurement.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 3905433..5a11962 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -406,9 +406,7 @@ def expectation_values_to_real(
     expectation_values.values = np.array(values)
     if expectation_values.correlations:
         for i, value in enumerate(expectation_values.correlations):
-            if isinstance(value, complex):
-                value = value.real
-            expectation_values.correlations[i] = value
+            expectation_values.correlations[i] = np.real(value)
     return expectation_values
 
 
-- 
2.43.0


From a320825c04537433cd16b7cdc088bda665c0e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:11 +0000
Subject: [PATCH 16/89] fix: estimate operators whose coefficients have complex
 type

---
 src/python/zquantum/core/measurement.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 5a11962..b7baabc 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -761,7 +761,9 @@ class Measurements:
         ]
         expectation_values = np.array(expectation_values_list)
 
-        correlations = np.zeros((len(ising_operator.terms),) * 2)
+        correlations = np.zeros(
+            (len(ising_operator.terms),) * 2, dtype=expectation_values.dtype
+        )
         for i, first_term in enumerate(ising_operator.terms):
             correlations[i, i] = ising_operator.terms[first_term] ** 2
             for j in range(i):
-- 
2.43.0


From 799ff55df2d0f132f04f407eeb6902592ad5b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 17/89] fix: measurements do not share the list of shots they
 are created from

---
 src/python/zquantum/core/measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index b7baabc..d0e27a1 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -569,7 +569,7 @@ class Measurements:
         if bitstrings is None:
             self.bitstrings = []
         else:
-            self.bitstrings = bitstrings
+            self.bitstrings = list(bitstrings)
 
     @classmethod
     def from_counts(cls, counts: Dict[str, int]):
-- 
2.43.0


From 043888d8a19adc69d841a780e472ede7dd120cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:16 +0000
Subject: [PATCH 18/89] fix: kernel distances of outcomes of many qubits do not
 overflow

---
 src/python/zquantum/core/distribution/mmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/distribution/mmd.py b/src/python/zquantum/core/distribution/mmd.py
index 6a32748..c07c838 100644
--- a/src/python/zquantum/core/distribution/mmd.py
+++ b/src/python/zquantum/core/distribution/mmd.py
@@ -46,7 +46,7 @@ def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.nda
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     try:
         gamma = 1.0 / (2 * sigma)
     except ZeroDivisionError as error:
@@ -73,7 +73,7 @@ def compute_multi_rbf_kernel(
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     kernel_matrix = np.zeros(exponent.shape)
     for sigma in sigmas:
         try:
-- 
2.43.0


From 55ae94479d73b9071da160d9985319b1922fcacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:16 +0000
Subject: [PATCH 19/89] fix: save distributions over single integers of several
 digits

---
 .../_measurement_outcome_distribution.py          | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
index 5c3b1db..82129cf 100644
--- a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
+++ b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
@@ -92,7 +92,10 @@ def preprocess_distibution_dict(
     res_dict = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            # A single integer of several digits is written with a trailing comma
+            res_dict[
+                tuple(map(int, key if "," not in key else key.rstrip(",").split(",")))
+            ] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -223,11 +226,19 @@ def normalize_measurement_outcome_distribution(
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        _change_tuple_to_comma_separated_integers(key)
+        if isinstance(key, tuple)
+        else key: value
         for key, value in dict.items()
     }
 
 
+def _change_tuple_to_comma_separated_integers(key: Tuple[int, ...]) -> str:
+    if len(key) == 1 and key[0] > 9:
+        return f"{key[0]},"
+    return ",".join(map(str, key))
+
+
 def save_measurement_outcome_distribution(
     distribution: MeasurementOutcomeDistribution, filename: AnyPath
 ) -> None:
-- 
2.43.0


From c0636327a9f031aca7ad9e55e14912bd40873159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:16 +0000
Subject: [PATCH 20/89] fix: reject the first number that does not fit the bits
 of dec2bin

---
 src/python/zquantum/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 327baea..08905c5 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -72,7 +72,7 @@ def dec2bin(number: int, length: int) -> List[int]:
         A list of binary numbers
     """
 
-    if pow(2, length) < number:
+    if pow(2, length) <= number:
         sys.exit(
             "Insufficient number of bits for representing the number {}".format(number)
         )
-- 
2.43.0


From b4b7e7ef4325b0babb71e1b0ee6e44aa26aa53b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:38 +0000
Subject: [PATCH 21/89] fix: bind all estimation tasks when a single symbols
 map is given

---
 src/python/zquantum/core/estimation/_estimation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/zquantum/core/estimation/_estimation.py b/src/python/zquantum/core/estimation/_estimation.py
index 852e066..299d27e 100644
--- a/src/python/zquantum/core/estimation/_estimation.py
+++ b/src/python/zquantum/core/estimation/_estimation.py
@@ -198,6 +198,11 @@ def evaluate_estimation_circuits(
         symbols_maps: a list of dictionaries (or singular dictionary) that map the
             symbolic symbols used in the parametrized circuits to the associated values
     """
+    if isinstance(symbols_maps, dict):
+        symbols_maps = [symbols_maps]
+    if len(symbols_maps) == 1:
+        symbols_maps = list(symbols_maps) * len(estimation_tasks)
+
     return [
         EstimationTask(
             operator=estimation_task.operator,
-- 
2.43.0


From 9ce5fa8c55ccd16450c75d7be37f36cb34edd99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:38 +0000
Subject: [PATCH 22/89] fix: variances of operators whose coefficients have
 complex type are real

---
 src/python/zquantum/core/hamiltonian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/hamiltonian.py b/src/python/zquantum/core/hamiltonian.py
index 01ed1fc..236212d 100644
--- a/src/python/zquantum/core/hamiltonian.py
+++ b/src/python/zquantum/core/hamiltonian.py
@@ -133,7 +133,7 @@ def get_decomposition_function(
 
 def _calculate_variance_upper_bound(group: QubitOperator) -> float:
     coefficients = np.array(list(group.terms.values()))
-    return np.sum(coefficients**2)
+    return np.sum(np.abs(coefficients) ** 2)
 
 
 def _remove_constant_term_from_group(group: QubitOperator) -> QubitOperator:
@@ -183,7 +183,7 @@ def compute_group_variances(
             pauli_variances_for_group = pauli_variances[
                 offset : offset + group_sizes[i]
             ]
-            frame_variances.append(np.sum(coeffs**2 * pauli_variances_for_group))
+            frame_variances.append(np.sum(np.abs(coeffs) ** 2 * pauli_variances_for_group))
 
     return np.array(frame_variances)
 
-- 
2.43.0


From 347dce531536e5fc74b80736504ec44d27758720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:42 +0000
Subject: [PATCH 23/89] fix: reject circuit sets whose numbers of samples do
 not match

---
 src/python/zquantum/core/interfaces/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/interfaces/backend.py b/src/python/zquantum/core/interfaces/backend.py
index fd29f96..603b82a 100644
--- a/src/python/zquantum/core/interfaces/backend.py
+++ b/src/python/zquantum/core/interfaces/backend.py
@@ -80,6 +80,9 @@ class QuantumBackend(ABC):
         """
         measurement_set: List[Measurements]
 
+        if len(circuits) != len(n_samples):
+            raise ValueError("Number of circuits and numbers of samples must match.")
+
         if not self.supports_batching:
             measurement_set = []
             for circuit, n_samples_for_circuit in zip(circuits, n_samples):
-- 
2.43.0


From 0a1a89f9161682453b0d98ea17b064aa789dcc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:42 +0000
Subject: [PATCH 24/89] fix: keep the data of all measurements of a tracked
 session

---
 src/python/zquantum/core/trackers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/python/zquantum/core/trackers.py b/src/python/zquantum/core/trackers.py
index 4a7114c..8d1b51f 100644
--- a/src/python/zquantum/core/trackers.py
+++ b/src/python/zquantum/core/trackers.py
@@ -153,4 +153,3 @@ class MeasurementTrackingBackend(QuantumBackend):
                 "raw-data": self.raw_data,
             }
             f.write(json.dumps(data))
-        self.raw_data = []
-- 
2.43.0


From fbe48abbcdff1d9915aeb6caab30e6c957f59004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:25 +0000
Subject: [PATCH 25/89] fix: divide the time in derivative circuits of several
 Trotter steps

---
 src/python/zquantum/core/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index b884b4d..dc553a1 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -163,7 +163,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", trotter_order=1
+            hamiltonian, time / trotter_order, method="Trotter", trotter_order=1
         )
 
         for position in range(trotter_order):
-- 
2.43.0


From 4466bb4bacd501c91b4cb3a2ca8975e90605d48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 26/89] fix: extend histories of functions with and without
 gradients

---
 src/python/zquantum/core/interfaces/optimizer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/interfaces/optimizer.py b/src/python/zquantum/core/interfaces/optimizer.py
index 571dc56..dace96b 100644
--- a/src/python/zquantum/core/interfaces/optimizer.py
+++ b/src/python/zquantum/core/interfaces/optimizer.py
@@ -130,10 +130,11 @@ def extend_histories(
 ) -> Dict[str, List]:
     new_histories = construct_history_info(cost_function, True)
     updated_histories = {"history": histories["history"] + new_histories["history"]}
-    if hasattr(cost_function, "gradient"):
-        updated_histories["gradient_history"] = (
-            histories["gradient_history"] + new_histories["gradient_history"]
-        )
+    if "gradient_history" in histories or "gradient_history" in new_histories:
+        updated_histories["gradient_history"] = [
+            *histories.get("gradient_history", []),
+            *new_histories.get("gradient_history", []),
+        ]
     return updated_histories
 
 
-- 
2.43.0


From db20a06b82d98b73de3332f2b021c7d56f21c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 27/89] fix: mock optimizers use their initial parameters and
 leave them unchanged

---
 src/python/zquantum/core/interfaces/mock_objects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/interfaces/mock_objects.py b/src/python/zquantum/core/interfaces/mock_objects.py
index 2e2cbad..34e7889 100644
--- a/src/python/zquantum/core/interfaces/mock_objects.py
+++ b/src/python/zquantum/core/interfaces/mock_objects.py
@@ -48,10 +48,9 @@ class MockOptimizer(Optimizer):
     def _minimize(
         self, cost_function, initial_params: np.ndarray, keep_history: bool = False
     ):
-        new_parameters = initial_params
+        new_parameters = np.array(initial_params, dtype=float)
         for i in range(len(initial_params)):
             new_parameters[i] += random.random()
-        new_parameters = np.array(new_parameters)
         return optimization_result(
             opt_value=cost_function(new_parameters),
             opt_params=new_parameters,
@@ -111,7 +110,7 @@ class MockNestedOptimizer(NestedOptimizer):
             cost_function = cost_function_factory(i)
             if keep_history:
                 cost_function = self.recorder(cost_function)
-            opt_result = self.inner_optimizer.minimize(cost_function, initial_params)
+            opt_result = self.inner_optimizer.minimize(cost_function, current_params)
             nfev += opt_result.nfev
             current_params = opt_result.opt_params
             if keep_history:
-- 
2.43.0


From db7bbd716bb1a4c704e4908827b522ff63aa7146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:54 +0000
Subject: [PATCH 28/89] fix: use augmented gradients of functions that are not
 augmented

---
 src/python/zquantum/core/cost_function_augmentations.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index 022cfc0..6cf7cc7 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -169,6 +169,13 @@ def augment_cost_function(
         else {}
     )
 
+    if not cost_function_augmentations and gradient_augmentations:
+        # The augmented gradient has to be used even if the function itself is not
+        # augmented.
+        return _AttributePropagatingWrapper(
+            cost_function, cost_function, attribute_overrides
+        )
+
     augmented_cost_function = _augment_function(
         cost_function, cost_function_augmentations, attribute_overrides
     )
-- 
2.43.0


From c98ee6901b3ae8bf14dd6b3f278b4e559a745f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:00 +0000
Subject: [PATCH 29/89] fix: add noise to integer parameters of cost functions

---
 src/python/zquantum/core/cost_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/cost_function.py b/src/python/zquantum/core/cost_function.py
index d083031..1a52377 100644
--- a/src/python/zquantum/core/cost_function.py
+++ b/src/python/zquantum/core/cost_function.py
@@ -140,7 +140,7 @@ def get_ground_state_cost_function(
         if parameter_precision is not None:
             rng = np.random.default_rng(parameter_precision_seed)
             noise_array = rng.normal(0.0, parameter_precision, len(parameters))
-            parameters += noise_array
+            parameters = parameters + noise_array
 
         symbols_map = create_symbols_map(circuit_symbols, parameters)
         current_estimation_tasks = evaluate_estimation_circuits(
@@ -288,7 +288,7 @@ class AnsatzBasedCostFunction:
             noise_array = rng.normal(
                 0.0, self.parameter_precision, len(full_parameters)
             )
-            full_parameters += noise_array
+            full_parameters = full_parameters + noise_array
 
         symbols_map = create_symbols_map(self.circuit_symbols, full_parameters)
         estimation_tasks = evaluate_estimation_circuits(
-- 
2.43.0


From 2040c7d0beb3f0b2908a799935ea5a5bbd80b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 30/89] fix: apply parameter preprocessors in every call

---
 src/python/zquantum/core/cost_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/cost_function.py b/src/python/zquantum/core/cost_function.py
index 1a52377..dbe87a0 100644
--- a/src/python/zquantum/core/cost_function.py
+++ b/src/python/zquantum/core/cost_function.py
@@ -388,10 +388,11 @@ def create_cost_function(
 
     """
 
+    # The preprocessors are applied in every call, hence any iterable has to be kept.
+    preprocessors = [] if parameter_preprocessors is None else [*parameter_preprocessors]
+
     def _cost_function(parameters: np.ndarray) -> Union[float, ValueEstimate]:
-        for preprocessor in (
-            [] if parameter_preprocessors is None else parameter_preprocessors
-        ):
+        for preprocessor in preprocessors:
             parameters = preprocessor(parameters)
 
         estimation_tasks = estimation_tasks_factory(parameters)
-- 
2.43.0


From d8b86821332d3fd39a365bbaf15695debdbeb36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:16 +0000
Subject: [PATCH 31/89] fix: copies of recorders keep the recorded gradients

---
 src/python/zquantum/core/history/recorder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/history/recorder.py b/src/python/zquantum/core/history/recorder.py
index 3ace945..9030e9f 100644
--- a/src/python/zquantum/core/history/recorder.py
+++ b/src/python/zquantum/core/history/recorder.py
@@ -64,6 +64,8 @@ def copy_recorder(recorder_to_copy):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = recorder_to_copy.history
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.copy(recorder_to_copy.gradient)
     return recorder_copy
 
 
@@ -76,6 +78,8 @@ def deepcopy_recorder(recorder_to_copy, memo):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = copy.deepcopy(recorder_to_copy.history, memo=memo)
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.deepcopy(recorder_to_copy.gradient, memo=memo)
     return recorder_copy
 
 
-- 
2.43.0


From 00618688b5a2a69bcea324d06312e0507b19822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:46 +0000
Subject: [PATCH 32/89] fix: return functions without gradient unchanged when
 only gradients are augmented

---
 src/python/zquantum/core/cost_function_augmentations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index 6cf7cc7..5d3d713 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -169,7 +169,8 @@ def augment_cost_function(
         else {}
     )
 
-    if not cost_function_augmentations and gradient_augmentations:
+    only_gradient = gradient_augmentations and not cost_function_augmentations
+    if only_gradient and attribute_overrides:
         # The augmented gradient has to be used even if the function itself is not
         # augmented.
         return _AttributePropagatingWrapper(
-- 
2.43.0


From 7f84e2066fe53c911e4d4ecd71979f035051e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:25 +0000
Subject: [PATCH 33/89] fix: load artifacts from any kind of path

---
 .../distribution/_measurement_outcome_distribution.py |  5 +++--
 src/python/zquantum/core/measurement.py               |  3 ++-
 .../zquantum/core/openfermion/zapata_utils/_io.py     | 11 ++++++-----
 src/python/zquantum/core/utils.py                     |  7 ++++---
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
index 82129cf..899f35a 100644
--- a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
+++ b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
@@ -6,6 +6,7 @@ import math
 import sys
 import warnings
 from itertools import product
+from os import PathLike
 from typing import Any, Callable, Dict, List, Tuple, Union
 
 import numpy as np
@@ -300,7 +301,7 @@ def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistri
     Returns:
         object: a python object loaded from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -327,7 +328,7 @@ def load_measurement_outcome_distributions(
         A list of measurement outcome distributions loaded
          from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index d0e27a1..abd4942 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 import copy
 import json
 from collections import Counter
+from os import PathLike
 from typing import (
     Any,
     Dict,
@@ -652,7 +653,7 @@ class Measurements:
         Args:
             file (str or file-like object): the name of the file, or a file-like object
         """
-        if isinstance(file, str):
+        if isinstance(file, (str, bytes, PathLike)):
             with open(file, "r") as f:
                 data = json.load(f)
         else:
diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_io.py b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
index 89c6e1a..bb36d59 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_io.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
@@ -1,3 +1,4 @@
+from os import PathLike
 from typing import Any, Callable, Dict, List
 
 import numpy as np
@@ -60,7 +61,7 @@ def load_interaction_operator(file: LoadSource) -> InteractionOperator:
         op: the operator.
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -157,7 +158,7 @@ def load_qubit_operator(file: LoadSource) -> QubitOperator:
         op: the operator.
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -193,7 +194,7 @@ def load_qubit_operator_set(file: LoadSource) -> List[QubitOperator]:
     Returns:
         qubit_operator_set: a list of QubitOperator objects
     """
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -263,7 +264,7 @@ def load_ising_operator(file: LoadSource) -> IsingOperator:
         op: the operator.
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -343,7 +344,7 @@ def load_interaction_rdm(file: LoadSource) -> InteractionRDM:
         The interaction RDM.
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 08905c5..a3b88cc 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -10,6 +10,7 @@ import json
 import sys
 import warnings
 from functools import partial
+from os import PathLike
 from types import FunctionType
 from typing import Any, Dict, Iterable, List, Optional, Tuple
 
@@ -319,7 +320,7 @@ def load_value_estimate(file: LoadSource) -> ValueEstimate:
         array (numpy.array): the array
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -352,7 +353,7 @@ def load_list(file: LoadSource) -> List:
         array (list): the list
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -459,7 +460,7 @@ def load_noise_model(file: LoadSource):
         noise model
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             specs = json.load(f)
     else:
-- 
2.43.0


From 1c6cef9386e06a83cf412686eaf960753e1d8921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:52 +0000
Subject: [PATCH 34/89] fix: keep complex type and infinite parts of stored
 arrays

---
 src/python/zquantum/core/serialization.py | 5 +----
 src/python/zquantum/core/utils.py         | 5 +++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index f58efc0..7cab79e 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -94,10 +94,7 @@ class OrquestraDecoder(json.JSONDecoder):
         # TODO: reimplement this when we agree on some common serialization mechanism.
         # See: https://www.pivotaltracker.com/story/show/175446541
         if "real" in obj:
-            array = np.array(obj["real"])
-            if "imag" in obj:
-                array = array + 1j * np.array(obj["imag"])
-            return array
+            return convert_dict_to_array(obj)
         elif "call_number" in obj and "value" in obj:
             cls = HistoryEntry if "artifacts" not in obj else HistoryEntryWithArtifacts
             return cls(**obj)
diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index a3b88cc..095f37c 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -35,8 +35,9 @@ def convert_dict_to_array(dictionary: dict) -> np.ndarray:
 
     array = np.array(dictionary["real"])
 
-    if dictionary.get("imag"):
-        array = array + 1j * np.array(dictionary["imag"])
+    if dictionary.get("imag") is not None:
+        array = np.array(array, dtype=complex)
+        array.imag = np.array(dictionary["imag"])
 
     return array
 
-- 
2.43.0


From b78900161fd5f3ad74f2c27b2fa99364b6db9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:52 +0000
Subject: [PATCH 35/89] fix: saving optimization results leaves them unchanged

---
 src/python/zquantum/core/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index 7cab79e..5805bb1 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -109,7 +109,7 @@ class OrquestraDecoder(json.JSONDecoder):
 
 
 def save_optimization_results(optimization_results: dict, filename: AnyPath):
-    optimization_results["schema"] = SCHEMA_VERSION + "-optimization_result"
+    optimization_results = OptimizeResult(optimization_results)
     with open(filename, "wt") as target_file:
         json.dump(optimization_results, target_file, cls=OrquestraEncoder)
 
-- 
2.43.0


From 967790dfc946a5de728d2e8b728a12b5f4989107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:52 +0000
Subject: [PATCH 36/89] fix: decode dictionaries of numbers that are not
 distributions

---
 src/python/zquantum/core/serialization.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index 5805bb1..91f3731 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -32,6 +32,18 @@ def has_numerical_values(dictionary):
     return all(isinstance(value, Number) for value in dictionary.values())
 
 
+def represents_measurement_outcome_distribution(dictionary):
+    if not has_numerical_values(dictionary):
+        return False
+    try:
+        return is_measurement_outcome_distribution(
+            preprocess_distibution_dict(dictionary)
+        )
+    except ValueError:
+        # Some of the keys are not sequences of integers.
+        return False
+
+
 def preprocess(tree):
     """This inflates namedtuples into dictionaries, otherwise they would be serialized
     as lists.
@@ -98,9 +110,7 @@ class OrquestraDecoder(json.JSONDecoder):
         elif "call_number" in obj and "value" in obj:
             cls = HistoryEntry if "artifacts" not in obj else HistoryEntryWithArtifacts
             return cls(**obj)
-        elif has_numerical_values(obj) and is_measurement_outcome_distribution(
-            preprocess_distibution_dict(obj)
-        ):
+        elif represents_measurement_outcome_distribution(obj):
             return MeasurementOutcomeDistribution(obj, normalize=False)
         elif "schema" in obj and obj["schema"] in self.SCHEMA_MAP:
             return self.SCHEMA_MAP[obj.pop("schema")](obj)
-- 
2.43.0


From 1ad10cf1da035fdf22413d8cfd045b2faa9c8517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:35 +0000
Subject: [PATCH 37/89] fix: load estimates of numbers of measurements without
 frames

---
 src/python/zquantum/core/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 095f37c..fa077fb 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -553,7 +553,7 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -562,13 +562,16 @@ def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group), or None
+            if they were not saved
     """
 
     with open(filename, "r") as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = (
+        convert_dict_to_array(data["frame_meas"]) if "frame_meas" in data else None
+    )
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From a72df77f1d70a780cea2788300b7284d770f163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 38/89] fix: compare coefficients of each term with its own
 tolerance

---
 .../core/openfermion/ops/operators/symbolic_operator.py     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 0f7a1ee..ba8720f 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -644,8 +644,10 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             a = self.terms[term]
             b = other.terms[term]
             if not (isinstance(a, sympy.Expr) or isinstance(b, sympy.Expr)):
-                tol *= max(1, abs(a), abs(b))
-            if self._issmall(a - b, tol) is False:
+                term_tol = tol * max(1, abs(a), abs(b))
+            else:
+                term_tol = tol
+            if self._issmall(a - b, term_tol) is False:
                 return False
         # terms only in one (compare to 0.0 so only abs_tol)
         for term in set(self.terms).symmetric_difference(set(other.terms)):
-- 
2.43.0


From 0845f6e141a2ccbce2a35fbd3a80e2cff71b5b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 39/89] fix: support simultaneous iterations over an operator

---
 .../core/openfermion/ops/operators/symbolic_operator.py    | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index ba8720f..d73bdf1 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -619,12 +619,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
         return not (self == other)
 
     def __iter__(self):
-        self._iter = iter(self.terms.items())
-        return self
-
-    def __next__(self):
-        term, coefficient = next(self._iter)
-        return self.__class__(term=term, coefficient=coefficient)
+        return self.get_operators()
 
     def isclose(self, other, tol=EQ_TOLERANCE):
         """Check if other (SymbolicOperator) is close to self.
-- 
2.43.0


From 3f16173b8fc31286157c20db1db0299367b9fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 40/89] fix: add or subtract an operator to itself in place

---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index d73bdf1..8896806 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -438,7 +438,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, type(self)):
-            for term in addend.terms:
+            for term in list(addend.terms):
                 self.terms[term] = self.terms.get(term, 0.0) + addend.terms[term]
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
@@ -485,7 +485,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot subtract invalid type.
         """
         if isinstance(subtrahend, type(self)):
-            for term in subtrahend.terms:
+            for term in list(subtrahend.terms):
                 self.terms[term] = self.terms.get(term, 0.0) - subtrahend.terms[term]
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
-- 
2.43.0


From 0a3130dceb859643b3a738eb8203f1c7b2bb4def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 41/89] fix: compress keeps negative sympy coefficients

---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 8896806..853b5c5 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -667,9 +667,9 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             coeff = self.terms[term]
 
             if isinstance(coeff, sympy.Expr):
-                if sympy.simplify(sympy.im(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.im(coeff)) <= abs_tol) == True:
                     coeff = sympy.re(coeff)
-                if sympy.simplify(sympy.re(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.re(coeff)) <= abs_tol) == True:
                     coeff = 1j * sympy.im(coeff)
                 if sympy.simplify(abs(coeff) <= abs_tol) != True:
                     new_terms[term] = coeff
-- 
2.43.0


From bb218c279ee5b25212cc0f7d9c6787310374d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 42/89] fix: many-body order of operators with negligible
 coefficients only

---
 .../core/openfermion/ops/operators/symbolic_operator.py  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 853b5c5..57ef4ed 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -719,9 +719,12 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             return 0
         else:
             return max(
-                len(term)
-                for term, coeff in self.terms.items()
-                if (self._issmall(coeff) is False)
+                (
+                    len(term)
+                    for term, coeff in self.terms.items()
+                    if (self._issmall(coeff) is False)
+                ),
+                default=0,
             )
 
     @classmethod
-- 
2.43.0


From 72790a9ae3d361025163edf30e75aa4bdb582c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 43/89] fix: sign of imaginary parts in parsed coefficients

---
 .../core/openfermion/ops/operators/symbolic_operator.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 57ef4ed..8aa85a6 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -177,7 +177,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             else:
                 try:
                     if "j" in coef_string:
-                        if coef_string[0] == "-":
+                        if coef_string.startswith("-("):
                             coef = -complex(coef_string[1:])
                         else:
                             coef = complex(coef_string)
-- 
2.43.0


From 5ec462204499d329fcbb8668863dcb74d2ada0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:06 +0000
Subject: [PATCH 44/89] fix: print operators with negligible coefficients as
 zero

---
 .../core/openfermion/ops/operators/symbolic_operator.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 8aa85a6..43384ac 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -350,7 +350,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
                 else:
                     tmp_string += "{}{} ".format(index, action_string)
             string_rep += "{}] +\n".format(tmp_string.strip())
-        return string_rep[:-3]
+        return string_rep[:-3] or "0"
 
     def __repr__(self):
         return str(self)
-- 
2.43.0


From d93c816bc4c3c7b8184862bbb1ace49bca7b750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:30 +0000
Subject: [PATCH 45/89] fix: load the zero operator from plain text

---
 src/python/zquantum/core/openfermion/utils/operator_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/utils/operator_utils.py b/src/python/zquantum/core/openfermion/utils/operator_utils.py
index cc72bf0..13ba585 100644
--- a/src/python/zquantum/core/openfermion/utils/operator_utils.py
+++ b/src/python/zquantum/core/openfermion/utils/operator_utils.py
@@ -239,6 +239,10 @@ def load_operator(file_name=None, data_directory=None, plain_text=False):
             data = f.read()
             operator_type, operator_terms = data.split(":\n")
 
+        if operator_terms.strip() == "0":
+            # The text of an operator without terms.
+            operator_terms = None
+
         if operator_type == "FermionOperator":
             operator = FermionOperator(operator_terms)
         elif operator_type == "QubitOperator":
-- 
2.43.0


From 169490483e3dd6d9e77b6fd91486c0b74f68122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:30 +0000
Subject: [PATCH 46/89] fix: reorder operators that act on no modes

---
 .../transforms/opconversions/term_reordering.py           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py b/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
index d1a3b6e..4cc96b8 100644
--- a/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
+++ b/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
@@ -247,7 +247,13 @@ def reorder(operator, order_function, num_modes=None, reverse=False):
     """
 
     if num_modes is None:
-        num_modes = max([factor[0] for term in operator.terms for factor in term]) + 1
+        num_modes = (
+            max(
+                (factor[0] for term in operator.terms for factor in term),
+                default=-1,
+            )
+            + 1
+        )
 
     mode_map = {
         mode_idx: order_function(mode_idx, num_modes) for mode_idx in range(num_modes)
-- 
2.43.0


From 9e5af20a6b4eb53c52b5d68e6a0a8a4d261caaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:30 +0000
Subject: [PATCH 47/89] fix: saving parameter grid evaluations leaves them
 unchanged

---
 src/python/zquantum/core/openfermion/zapata_utils/_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_io.py b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
index bb36d59..05b8680 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_io.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
@@ -296,11 +296,11 @@ def save_parameter_grid_evaluation(parameter_grid_evaluation, filename):
     full_dict = {}
     full_dict["schema"] = SCHEMA_VERSION + "-parameter_grid_evaluation"
 
+    full_dict["values_set"] = []
     for evaluation in parameter_grid_evaluation:
         value = evaluation["value"].to_dict()
         value["schema"] = SCHEMA_VERSION + "-value_estimate"
-        evaluation["value"] = value
-    full_dict["values_set"] = parameter_grid_evaluation
+        full_dict["values_set"].append({**evaluation, "value": value})
 
     with open(filename, "w") as f:
         f.write(json.dumps(full_dict, indent=2))
-- 
2.43.0


From ffabf305eab23d6eb44d61c48d2063392c9e2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:37 +0000
Subject: [PATCH 48/89] fix: recorders of functions storing artifacts store
 artifacts

---
 src/python/zquantum/core/history/recorder.py | 24 +++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/history/recorder.py b/src/python/zquantum/core/history/recorder.py
index 9030e9f..2fb5984 100644
--- a/src/python/zquantum/core/history/recorder.py
+++ b/src/python/zquantum/core/history/recorder.py
@@ -3,7 +3,7 @@
 ################################################################################
 """Main implementation of the recorder."""
 import copy
-from typing import Any, Callable, Dict, Generic, List, NamedTuple, TypeVar
+from typing import Any, Callable, Dict, Generic, List, NamedTuple, Optional, TypeVar
 
 from typing_extensions import overload
 
@@ -155,9 +155,13 @@ class ArtifactRecorder(Generic[S, T]):
         self.history: List[HistoryEntryWithArtifacts] = []
         self.call_number = 0
 
-    def __call__(self, params: S) -> T:
+    def __call__(
+        self, params: S, store_artifact: Optional[StoreArtifact] = None
+    ) -> T:
         artifacts = ArtifactCollection()
-        return_value = self.target(params, store_artifact=store_artifact(artifacts))
+        return_value = self.target(
+            params, store_artifact=_store_in_both(artifacts, store_artifact)
+        )
 
         if self.predicate(return_value, params, self.call_number) or artifacts.forced:
             self.history.append(
@@ -216,6 +220,20 @@ def store_artifact(artifacts) -> StoreArtifact:
     return _store
 
 
+def _store_in_both(artifacts, outer: Optional[StoreArtifact]) -> StoreArtifact:
+    """Create a function storing artifacts in given artifacts collection and, if it is
+    given, also passing them to the outer function storing artifacts."""
+    inner = store_artifact(artifacts)
+    if outer is None:
+        return inner
+
+    def _store(artifact_name: str, artifact: Any, force: bool = False) -> None:
+        inner(artifact_name, artifact, force=force)
+        outer(artifact_name, artifact, force=force)
+
+    return _store
+
+
 @overload
 def recorder(
     function: CallableWithGradientStoringArtifacts,
-- 
2.43.0


From bd9a3b3cf58a98b58c0ea6e4f29d1ce8dbb17f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:06 +0000
Subject: [PATCH 49/89] fix: Bravyi-Kitaev transform of interaction operators
 on more qubits

---
 .../openfermion/transforms/opconversions/bravyi_kitaev.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py b/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
index 98bd737..95467e6 100644
--- a/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
+++ b/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
@@ -273,7 +273,7 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
     qubit_hamiltonian_coef = []
 
     #  For cases A - F see Table II of Seeley, Richard, Love
-    for i in range(n_qubits):
+    for i in range(N):
         # A. Number operators: n_i
         if abs(one_body[i, i]) > 0:
             qubit_hamiltonian += _qubit_operator_creation(
@@ -313,8 +313,8 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
                 constant_term += coef
 
     # C. Number-excitation operators: n_i a_j^d a_k
-    for i in range(n_qubits):
-        for j in range(n_qubits):
+    for i in range(N):
+        for j in range(N):
             for k in range(j):
                 if i not in (j, k):
                     coef = _two_body_coef(two_body, i, j, k, i)
@@ -340,7 +340,7 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
                         qubit_hamiltonian += number
 
     # D. Double-excitation operators: c_i^d c_j^d c_k c_l
-    for i in range(n_qubits):
+    for i in range(N):
         for j in range(i):
             for k in range(j):
                 for l in range(k):
-- 
2.43.0


From 62a0263ad11f763166be91db1d62ee1526fb2f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:50 +0000
Subject: [PATCH 50/89] fix: multiply and divide tensors by numbers of another
 type

---
 .../core/openfermion/ops/representations/polynomial_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index ed50e64..393c1c9 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -294,7 +294,7 @@ class PolynomialTensor(object):
     def __imul__(self, multiplier):
         if isinstance(multiplier, COEFFICIENT_TYPES):
             for key in self.n_body_tensors:
-                self.n_body_tensors[key] *= multiplier
+                self.n_body_tensors[key] = self.n_body_tensors[key] * multiplier
 
         elif isinstance(multiplier, PolynomialTensor):
             if self.n_qubits != multiplier.n_qubits:
@@ -328,7 +328,7 @@ class PolynomialTensor(object):
     def __itruediv__(self, dividend):
         if isinstance(dividend, COEFFICIENT_TYPES):
             for key in self.n_body_tensors:
-                self.n_body_tensors[key] /= dividend
+                self.n_body_tensors[key] = self.n_body_tensors[key] / dividend
         else:
             raise TypeError("Invalid type.")
 
-- 
2.43.0


From ece51ec7b0cb9eb4cf804d8f454f39e7d2b88861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:45 +0000
Subject: [PATCH 51/89] fix: sums of tensors with integer constants convert to
 fermion operators

---
 .../ops/representations/polynomial_tensor.py         | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index 393c1c9..ae72c90 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -233,8 +233,8 @@ class PolynomialTensor(object):
 
         for key in addend.n_body_tensors:
             if key in self.n_body_tensors:
-                self.n_body_tensors[key] = numpy.add(
-                    self.n_body_tensors[key], addend.n_body_tensors[key]
+                self.n_body_tensors[key] = (
+                    self.n_body_tensors[key] + addend.n_body_tensors[key]
                 )
             else:
                 self.n_body_tensors[key] = addend.n_body_tensors[key]
@@ -275,8 +275,8 @@ class PolynomialTensor(object):
 
         for key in subtrahend.n_body_tensors:
             if key in self.n_body_tensors:
-                self.n_body_tensors[key] = numpy.subtract(
-                    self.n_body_tensors[key], subtrahend.n_body_tensors[key]
+                self.n_body_tensors[key] = (
+                    self.n_body_tensors[key] - subtrahend.n_body_tensors[key]
                 )
             else:
                 self.n_body_tensors[key] = subtrahend.n_body_tensors[key]
@@ -301,8 +301,8 @@ class PolynomialTensor(object):
                 raise TypeError("Invalid tensor shape.")
             for key in self.n_body_tensors:
                 if key in multiplier.n_body_tensors:
-                    self.n_body_tensors[key] = numpy.multiply(
-                        self.n_body_tensors[key], multiplier.n_body_tensors[key]
+                    self.n_body_tensors[key] = (
+                        self.n_body_tensors[key] * multiplier.n_body_tensors[key]
                     )
                 elif key == ():
                     self.constant = 0.0
-- 
2.43.0


From e888a22f5cda1a10ae0330e62e20c81d8f589f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:45 +0000
Subject: [PATCH 52/89] fix: sums of tensors do not share arrays with the
 addend

---
 .../core/openfermion/ops/representations/polynomial_tensor.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index ae72c90..c906b97 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -237,7 +237,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key] + addend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = addend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.copy(addend.n_body_tensors[key])
 
         return self
 
-- 
2.43.0


From f9a13225bb5bce5009359b80448707973eca48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:57 +0000
Subject: [PATCH 53/89] fix: polynomial tensors of constant operators

---
 src/python/zquantum/core/openfermion/zapata_utils/_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
index e19c1bd..055e1a2 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
@@ -521,6 +521,10 @@ def get_polynomial_tensor(fermion_operator, n_qubits=None):
             indices = tuple([operator[0] for operator in term])
             tensor_dict[key][indices] = coefficient
 
+    if not any(tensor_dict):
+        # The number of qubits of a PolynomialTensor is the one of its tensors.
+        tensor_dict[(1, 0)] = np.zeros((n_qubits, n_qubits), complex)
+
     return PolynomialTensor(tensor_dict)
 
 
-- 
2.43.0


From aac1bdbae70d5494594443e70f88969498266b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:52 +0000
Subject: [PATCH 54/89] fix: compare tensors on no modes

---
 .../openfermion/ops/representations/polynomial_tensor.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index c906b97..4351d7c 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -207,10 +207,12 @@ class PolynomialTensor(object):
             other_tensor = other.n_body_tensors.get(key)
 
             if self_tensor is not None and other_tensor is not None:
-                discrepancy = numpy.amax(numpy.absolute(self_tensor - other_tensor))
+                discrepancy = numpy.amax(
+                    numpy.absolute(self_tensor - other_tensor), initial=0.0
+                )
             else:
                 tensor = self_tensor if other_tensor is None else other_tensor
-                discrepancy = numpy.amax(numpy.absolute(tensor))
+                discrepancy = numpy.amax(numpy.absolute(tensor), initial=0.0)
 
             diff = max(diff, discrepancy)
 
-- 
2.43.0


From 4fae84a40361e529442b2808a718af2c65a6a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 55/89] fix: differences of tensors do not share arrays with
 the subtrahend

---
 .../core/openfermion/ops/representations/polynomial_tensor.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index 4351d7c..781a04e 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -281,7 +281,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key] - subtrahend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = subtrahend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.copy(subtrahend.n_body_tensors[key])
 
         return self
 
-- 
2.43.0


From d61e3b25a0d7df0673fc3e9fce5666beabf5bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 56/89] fix: freeze modes with large indices

---
 .../openfermion/transforms/repconversions/operator_tapering.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
index a871c6e..a4476d8 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
@@ -51,7 +51,7 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
             n_swaps = 0  # Number of swaps that have been done
 
             for op in enumerate(reversed(term)):
-                if op[1][0] is item[0]:
+                if op[1][0] == item[0]:
                     n_ops += 1
 
                     # Determine number of swaps needed to bring the op in
-- 
2.43.0


From 64528d7330ac82434a39b9e33b52ed69556812e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 57/89] fix: freezing orbitals without pruning keeps the
 indices

---
 .../openfermion/transforms/repconversions/operator_tapering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
index a4476d8..9a874fd 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
@@ -83,7 +83,8 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
                     new_operator.terms[term] *= -1
 
     # Renumber indices to remove frozen orbitals
-    new_operator = prune_unused_indices(new_operator)
+    if prune:
+        new_operator = prune_unused_indices(new_operator)
 
     return new_operator
 
-- 
2.43.0


From a1058148ba6dba246c8b2d8058a2cdf6a45e8c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 58/89] fix: removing inactive orbitals keeps all the active
 ones

---
 .../core/openfermion/zapata_utils/_utils.py    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
index 055e1a2..11b9a87 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
@@ -641,18 +641,24 @@ def remove_inactive_orbitals(
 
     unoccupied: Iterable
     # Determine which unoccupied spin-orbitals are to be frozen
+    n_spin_orbitals = interaction_op.one_body_tensor.shape[0]
     if n_active is not None:
-        unoccupied = range(
-            2 * n_core + 2 * n_active, interaction_op.one_body_tensor.shape[0]
-        )
+        unoccupied = range(2 * n_core + 2 * n_active, n_spin_orbitals)
     else:
         unoccupied = []
 
-    # Freeze the spin-orbitals
-    frozen_fermion_op = freeze_orbitals(fermion_op, occupied, unoccupied)
+    # Freeze the spin-orbitals, and renumber all the active ones, used or not
+    frozen_fermion_op = freeze_orbitals(fermion_op, occupied, unoccupied, prune=False)
+    active_fermion_op = FermionOperator()
+    for term, coefficient in frozen_fermion_op.terms.items():
+        active_term = tuple((index - 2 * n_core, action) for index, action in term)
+        active_fermion_op.terms[active_term] = coefficient
 
     # Convert back to an interaction operator
-    frozen_interaction_op = get_interaction_operator(frozen_fermion_op)
+    frozen_interaction_op = get_interaction_operator(
+        active_fermion_op,
+        n_qubits=n_spin_orbitals - len(occupied) - len(unoccupied),
+    )
 
     return frozen_interaction_op
 
-- 
2.43.0


From c43841d889e9d3690f3c1eff76d460ef13eecc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 59/89] fix: ground states of operators on one qubit

---
 .../zquantum/core/openfermion/linalg/sparse_tools.py  | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index 9cbbe39..9daa98a 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -338,9 +338,14 @@ def get_ground_state(sparse_operator, initial_guess=None):
         eigenstate:
             The lowest eigenstate in scipy.sparse csc format.
     """
-    values, vectors = scipy.sparse.linalg.eigsh(
-        sparse_operator, k=1, v0=initial_guess, which="SA", maxiter=1e7
-    )
+    dimension = sparse_operator.shape[0]
+    if dimension <= 2:
+        # Operator too small for sparse eigensolver
+        values, vectors = numpy.linalg.eigh(sparse_operator @ numpy.eye(dimension))
+    else:
+        values, vectors = scipy.sparse.linalg.eigsh(
+            sparse_operator, k=1, v0=initial_guess, which="SA", maxiter=1e7
+        )
 
     order = numpy.argsort(values)
     values = values[order]
-- 
2.43.0


From cbed00711672ce420d3bed86c5290821078b7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 60/89] fix: sparse form of polynomial tensors has all their
 qubits

---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index 9daa98a..fd52294 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -461,7 +461,9 @@ def get_sparse_operator(operator, n_qubits=None, trunc=None, hbar=1.0):
     from zquantum.core.openfermion.transforms.opconversions import get_fermion_operator
 
     if isinstance(operator, PolynomialTensor):
-        return jordan_wigner_sparse(get_fermion_operator(operator))
+        if n_qubits is None:
+            n_qubits = count_qubits(operator)
+        return jordan_wigner_sparse(get_fermion_operator(operator), n_qubits)
     elif isinstance(operator, FermionOperator):
         return jordan_wigner_sparse(operator, n_qubits)
     elif isinstance(operator, QubitOperator):
-- 
2.43.0


From de4f4cf30c4853dd85d8f6f60ae3857acdf4dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 61/89] fix: restricted sparse operators leaving the space of
 states

---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index fd52294..e5dc703 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -798,6 +798,10 @@ def _build_term_op_(term, state_array, int_state_array, sorting_indices):
             int_state_array, int_encoding, sorter=sorting_indices
         )
 
+        if target_state_index_sorted == space_size:
+            # Then target state comes after all the states in the space considered:
+            continue
+
         target_state = sorting_indices[target_state_index_sorted]
 
         if int_state_array[target_state] == int_encoding:
-- 
2.43.0


From e6b3ef25f99a8ea55ba8fff6260763a44cecb7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 62/89] fix: particle-hole symmetric Hubbard interactions have
 half the shift

---
 .../zquantum/core/openfermion/hamiltonians/general_hubbard.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py b/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
index 31886ba..7458603 100644
--- a/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
+++ b/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
@@ -31,7 +31,7 @@ PotentialParameter = namedtuple("PotentialParameter", ("dof", "coefficient"))
 def number_operator(i, coefficient=1.0, particle_hole_symmetry=False):
     op = FermionOperator(((i, 1), (i, 0)), coefficient)
     if particle_hole_symmetry:
-        op -= FermionOperator((), 0.5)
+        op -= FermionOperator((), 0.5 * coefficient)
     return op
 
 
-- 
2.43.0


From d2fcdfc4731aff33f8b5ce8f711adb485dcbbe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 63/89] fix: order symbols named with digits other than decimal
 ones

---
 src/python/zquantum/core/circuits/symbolic/_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/symbolic/_sorting.py b/src/python/zquantum/core/circuits/symbolic/_sorting.py
index f27e984..f399e07 100644
--- a/src/python/zquantum/core/circuits/symbolic/_sorting.py
+++ b/src/python/zquantum/core/circuits/symbolic/_sorting.py
@@ -6,7 +6,7 @@ import re
 
 
 def _convert_string_to_int_if_possible(text):
-    return int(text) if text.isdigit() else text
+    return int(text) if text.isdecimal() else text
 
 
 def natural_key(symbol):
-- 
2.43.0


From 05f34f2f6e939bfb31a190fd7dcce8a708770226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 64/89] fix: save the concatenation of circuits as a circuit

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index bb9b72f..0d47b04 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -107,7 +107,7 @@ def concatenate_circuits(circuit_set: Union[str, List[Circuit]]):
     if isinstance(circuit_set, str):
         circuit_set = load_circuitset(circuit_set)
     result_circuit = sum(circuit_set, Circuit())
-    save_circuitset(result_circuit, "result-circuit.json")
+    save_circuit(result_circuit, "result-circuit.json")
 
 
 # Create one circuitset from circuit and circuitset objects
-- 
2.43.0


From 2525dfb6f83d2be29b047806eb3438d9c8c8ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 65/89] fix: evaluate parametrized circuits at the values of
 their free symbols

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index 0d47b04..207bea7 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -144,6 +144,6 @@ def evaluate_parametrized_circuit(
     if isinstance(parameters, str):
         parameters = serialization.load_array(parameters)
 
-    symbols_map = create_symbols_map(parametrized_circuit.symbolic_params, parameters)
+    symbols_map = create_symbols_map(parametrized_circuit.free_symbols, parameters)
     bound_circuit = parametrized_circuit.bind(symbols_map)
     save_circuit(bound_circuit, "evaluated-circuit.json")
-- 
2.43.0


From 45644feef4eb58076cff6afada09d0125901cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 66/89] fix: batching circuits leaves the given circuit set
 unchanged

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index 207bea7..aba3ec2 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -121,7 +121,7 @@ def batch_circuits(
     elif isinstance(circuit_set, str):
         loaded_circuit_set = load_circuitset(circuit_set)
     else:
-        loaded_circuit_set = circuit_set
+        loaded_circuit_set = list(circuit_set)
 
     for circuit in circuits:
         if isinstance(circuit, str):
-- 
2.43.0


From e802c94542076122fc29f8e6b4a7b429b12747d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 67/89] fix: import the operator type of summed expectation
 values

---
 steps/measure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/measure.py b/steps/measure.py
index 9dca346..f2aa022 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -31,6 +31,7 @@ from zquantum.core.measurement import (
     save_expectation_values,
 )
 from zquantum.core.openfermion import (
+    IsingOperator,
     SymbolicOperator,
     change_operator_type,
     load_interaction_rdm,
-- 
2.43.0


From ca955866921923e431c5c0eddb10b5e8d10f1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 68/89] fix: steps accept qubit operators where they declare to

---
 steps/evaluation.py | 3 ++-
 steps/operators.py  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/steps/evaluation.py b/steps/evaluation.py
index 4af2867..7c3189a 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -102,7 +102,8 @@ def get_ground_state_rdm_from_qubit_operator(
         qubit_operator: The openfermion operator to diagonalize
         n_particles: number of particles in the target ground state
     """
-    qubit_operator = load_qubit_operator(qubit_operator)
+    if isinstance(qubit_operator, str):
+        qubit_operator = load_qubit_operator(qubit_operator)
     rdm = _get_ground_state_rdm_from_qubit_op(qubit_operator, n_particles)
     save_interaction_rdm(rdm, "rdms.json")
 
diff --git a/steps/operators.py b/steps/operators.py
index 406f237..c82d9b0 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -95,8 +95,10 @@ def interpolate_qubit_operators(
         target_qubit_operator: The target operator
         epsilon: The parameterization between the two operators. Default value is 0.5
     """
-    reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
-    target_qubit_operator = load_qubit_operator(target_qubit_operator)
+    if isinstance(reference_qubit_operator, str):
+        reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
+    if isinstance(target_qubit_operator, str):
+        target_qubit_operator = load_qubit_operator(target_qubit_operator)
 
     if epsilon > 1.0 or epsilon < 0.0:
         raise ValueError("epsilon must be in the range [0.0, 1.0]")
-- 
2.43.0


From 691084169f554aaefa35f644dd21e09824c40599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 69/89] fix: track measurements of backends created from specs

---
 src/python/zquantum/core/trackers.py | 27 +++++++++++++++++++++-
 steps/evaluation.py                  | 19 ++++------------
 steps/measure.py                     | 34 ++++------------------------
 steps/optimize.py                    | 22 +++---------------
 4 files changed, 38 insertions(+), 64 deletions(-)

diff --git a/src/python/zquantum/core/trackers.py b/src/python/zquantum/core/trackers.py
index 8d1b51f..542799c 100644
--- a/src/python/zquantum/core/trackers.py
+++ b/src/python/zquantum/core/trackers.py
@@ -9,7 +9,8 @@ from .circuits import Circuit, to_dict
 from .distribution import MeasurementOutcomeDistribution
 from .interfaces.backend import QuantumBackend
 from .measurement import Measurements
-from .utils import SCHEMA_VERSION
+from .typing import Specs
+from .utils import SCHEMA_VERSION, create_object
 
 
 class MeasurementTrackingBackend(QuantumBackend):
@@ -153,3 +154,27 @@ class MeasurementTrackingBackend(QuantumBackend):
                 "raw-data": self.raw_data,
             }
             f.write(json.dumps(data))
+
+
+def create_backend(backend_specs: Specs) -> QuantumBackend:
+    """Create the backend described by the specs, and track its measurements if the
+    specs ask for it.
+
+    Args:
+        backend_specs: Specs of the backend. Besides the arguments of the backend, they
+            can have the keys "track_measurements", "raw_data_file_name" (the default
+            is "raw_data.json") and "record_bitstrings".
+    """
+    if isinstance(backend_specs, str):
+        backend_specs = json.loads(backend_specs)
+    inner_backend_specs = dict(backend_specs)
+    track_measurements = inner_backend_specs.pop("track_measurements", False)
+    file_name = inner_backend_specs.pop("raw_data_file_name", "raw_data.json")
+    record_bitstrings = inner_backend_specs.pop("record_bitstrings", False)
+
+    backend = create_object(inner_backend_specs)
+    if track_measurements:
+        backend = MeasurementTrackingBackend(
+            backend, file_name, record_bitstrings=record_bitstrings
+        )
+    return backend
diff --git a/steps/evaluation.py b/steps/evaluation.py
index 7c3189a..7a2991a 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -1,12 +1,10 @@
 ################################################################################
 # © Copyright 2020-2022 Zapata Computing Inc.
 ################################################################################
-import json
-from typing import Dict, List, Union, cast
+from typing import Dict, List, Union
 
 from zquantum.core.circuits import Circuit, circuit_from_dict, load_circuit
 from zquantum.core.estimation import estimate_expectation_values_by_averaging
-from zquantum.core.interfaces.backend import QuantumBackend
 from zquantum.core.interfaces.estimation import EstimationTask
 from zquantum.core.measurement import (
     ExpectationValues,
@@ -34,9 +32,9 @@ from zquantum.core.openfermion.linalg import (
     jw_get_ground_state_at_particle_number as _jw_get_ground_state_at_particle_number,
 )
 from zquantum.core.openfermion.linalg import qubit_operator_sparse
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend
 from zquantum.core.typing import Specs
-from zquantum.core.utils import ValueEstimate, create_object, save_value_estimate
+from zquantum.core.utils import ValueEstimate, save_value_estimate
 from zquantum.core.wavefunction import Wavefunction
 
 
@@ -73,16 +71,7 @@ def get_expectation_values_for_qubit_operator(
     elif isinstance(qubit_operator, dict):
         qubit_operator = convert_dict_to_qubitop(qubit_operator)
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    backend = cast(QuantumBackend, create_object(backend_specs))
-
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     estimation_tasks = [EstimationTask(qubit_operator, circuit, backend.n_samples)]
 
diff --git a/steps/measure.py b/steps/measure.py
index f2aa022..95ad234 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -39,7 +39,7 @@ from zquantum.core.openfermion import (
     load_qubit_operator_set,
 )
 from zquantum.core.serialization import load_array
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend
 from zquantum.core.typing import Specs
 from zquantum.core.utils import (
     create_object,
@@ -66,13 +66,7 @@ def run_circuit_and_measure(
             device_connectivity
         )
 
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     if isinstance(circuit, str):
         circuit = circuits.load_circuit(circuit)
@@ -101,13 +95,7 @@ def run_circuitset_and_measure(
         )
 
     circuit_set = circuits.load_circuitset(circuitset)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     n_samples_list = [n_samples for _ in circuit_set]
     measurements_set = backend.run_circuitset_and_measure(
@@ -131,13 +119,7 @@ def get_bitstring_distribution(
         backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
             device_connectivity
         )
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     circuit = circuits.load_circuit(circuit)
 
@@ -185,13 +167,7 @@ def evaluate_ansatz_based_cost_function(
             device_connectivity
         )
 
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     if isinstance(cost_function_specs, str):
         cost_function_specs = json.loads(cost_function_specs)
diff --git a/steps/optimize.py b/steps/optimize.py
index f8fa831..125a14e 100644
--- a/steps/optimize.py
+++ b/steps/optimize.py
@@ -18,7 +18,7 @@ from zquantum.core.serialization import (
     save_array,
     save_optimization_results,
 )
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend
 from zquantum.core.typing import Specs
 from zquantum.core.utils import create_object, load_list
 
@@ -83,15 +83,7 @@ def optimize_parametrized_circuit_for_ground_state_of_operator(
         with open(parametrized_circuit) as f:
             parametrized_circuit = new_circuits.circuit_from_dict(json.load(f))
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     if estimation_method_specs is not None:
         if isinstance(estimation_method_specs, str):
@@ -206,15 +198,7 @@ def optimize_ansatz_based_cost_function(
         ansatz_specs["cost_hamiltonian"] = target_operator
     ansatz = create_object(ansatz_specs)
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     if estimation_method_specs is not None:
         if isinstance(estimation_method_specs, str):
-- 
2.43.0


From ef89d8dff56f0bf33170e9b62c3c88f558b4517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 70/89] fix: measuring with a noise model leaves the backend
 specs unchanged

---
 steps/measure.py | 56 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/steps/measure.py b/steps/measure.py
index 95ad234..3fe679f 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -60,11 +60,17 @@ def run_circuit_and_measure(
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
     if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
+        backend_specs = {
+            **backend_specs,
+            "noise_model": load_noise_model(noise_model),
+        }
     if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
-            device_connectivity
-        )
+        backend_specs = {
+            **backend_specs,
+            "device_connectivity": layouts.load_circuit_connectivity(
+                device_connectivity
+            ),
+        }
 
     backend = create_backend(backend_specs)
 
@@ -88,11 +94,17 @@ def run_circuitset_and_measure(
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
     if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
+        backend_specs = {
+            **backend_specs,
+            "noise_model": load_noise_model(noise_model),
+        }
     if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
-            device_connectivity
-        )
+        backend_specs = {
+            **backend_specs,
+            "device_connectivity": layouts.load_circuit_connectivity(
+                device_connectivity
+            ),
+        }
 
     circuit_set = circuits.load_circuitset(circuitset)
     backend = create_backend(backend_specs)
@@ -114,11 +126,17 @@ def get_bitstring_distribution(
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
     if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
+        backend_specs = {
+            **backend_specs,
+            "noise_model": load_noise_model(noise_model),
+        }
     if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
-            device_connectivity
-        )
+        backend_specs = {
+            **backend_specs,
+            "device_connectivity": layouts.load_circuit_connectivity(
+                device_connectivity
+            ),
+        }
     backend = create_backend(backend_specs)
 
     circuit = circuits.load_circuit(circuit)
@@ -161,11 +179,17 @@ def evaluate_ansatz_based_cost_function(
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
     if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
+        backend_specs = {
+            **backend_specs,
+            "noise_model": load_noise_model(noise_model),
+        }
     if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
-            device_connectivity
-        )
+        backend_specs = {
+            **backend_specs,
+            "device_connectivity": layouts.load_circuit_connectivity(
+                device_connectivity
+            ),
+        }
 
     backend = create_backend(backend_specs)
 
-- 
2.43.0


From cefcfb5a55b23c6b602430e3bf34900277edc4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 71/89] fix: steps leave the specs of ansatzes and cost
 functions unchanged

---
 steps/measure.py  | 6 ++++++
 steps/optimize.py | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/steps/measure.py b/steps/measure.py
index 3fe679f..d49fc4b 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -195,6 +195,8 @@ def evaluate_ansatz_based_cost_function(
 
     if isinstance(cost_function_specs, str):
         cost_function_specs = json.loads(cost_function_specs)
+    else:
+        cost_function_specs = dict(cost_function_specs)
 
     if (
         "estimator-specs" in cost_function_specs.keys()
@@ -226,6 +228,10 @@ def evaluate_ansatz_based_cost_function(
                 estimation_tasks_transformation_specs = json.loads(
                     estimation_tasks_transformation_specs
                 )
+            else:
+                estimation_tasks_transformation_specs = dict(
+                    estimation_tasks_transformation_specs
+                )
 
             if prior_expectation_values is not None:
                 # Since we don't know which estimation task transformation uses
diff --git a/steps/optimize.py b/steps/optimize.py
index 125a14e..83d86c0 100644
--- a/steps/optimize.py
+++ b/steps/optimize.py
@@ -190,6 +190,8 @@ def optimize_ansatz_based_cost_function(
 
     if isinstance(ansatz_specs, str):
         ansatz_specs = json.loads(ansatz_specs)
+    else:
+        ansatz_specs = dict(ansatz_specs)
 
     if "WarmStartQAOAAnsatz" in ansatz_specs["function_name"]:
         ansatz_specs["thetas"] = np.array(load_list(kwargs.pop("thetas")))
-- 
2.43.0


From 2bf65bb6bc8e68081c2681cf27ac006b260eabb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 72/89] fix: priors are ignored by the preprocessors that take
 none

---
 steps/measure.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/steps/measure.py b/steps/measure.py
index d49fc4b..2b96916 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -12,6 +12,8 @@ However keeping all the bitstrings from an experiment may create a very large
 amount of data so the default behavior is not to save the bitstrings.
 """
 
+import importlib
+import inspect
 import json
 from typing import Dict, List, Optional, Union
 
@@ -147,6 +149,13 @@ def get_bitstring_distribution(
     )
 
 
+def _takes_argument(specs: Dict, argument: str) -> bool:
+    """Whether the function or class in the specs takes the argument."""
+    module = importlib.import_module(specs["module_name"])
+    creator = getattr(module, specs["function_name"])
+    return argument in inspect.signature(creator).parameters
+
+
 def evaluate_ansatz_based_cost_function(
     ansatz_specs: Specs,
     backend_specs: Specs,
@@ -233,7 +242,9 @@ def evaluate_ansatz_based_cost_function(
                     estimation_tasks_transformation_specs
                 )
 
-            if prior_expectation_values is not None:
+            if prior_expectation_values is not None and _takes_argument(
+                estimation_tasks_transformation_specs, "prior_expectation_values"
+            ):
                 # Since we don't know which estimation task transformation uses
                 # prior_expectation_values, we add it to the kwargs of each one. If not
                 # used by a particular transformer, it will be ignored.
-- 
2.43.0


From d647d0f18bb9c1cbf5073aa3203c6257c970b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 73/89] fix: bitstring distributions of backends that take a
 number of samples

---
 steps/measure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steps/measure.py b/steps/measure.py
index 2b96916..6f3ab09 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -124,6 +124,7 @@ def get_bitstring_distribution(
     circuit: str,
     noise_model: Optional[str] = None,
     device_connectivity: Optional[str] = None,
+    n_samples: Optional[int] = None,
 ):
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
@@ -143,7 +144,7 @@ def get_bitstring_distribution(
 
     circuit = circuits.load_circuit(circuit)
 
-    bitstring_distribution = backend.get_bitstring_distribution(circuit)
+    bitstring_distribution = backend.get_bitstring_distribution(circuit, n_samples)
     save_measurement_outcome_distribution(
         bitstring_distribution, "bitstring-distribution.json"
     )
-- 
2.43.0


From b2282f58c11963fcf72686f4381a88d3d686fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 74/89] fix: measure operators with backends that have no
 number of samples

---
 steps/evaluation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/steps/evaluation.py b/steps/evaluation.py
index 7a2991a..ce32e83 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -1,7 +1,7 @@
 ################################################################################
 # © Copyright 2020-2022 Zapata Computing Inc.
 ################################################################################
-from typing import Dict, List, Union
+from typing import Dict, List, Optional, Union
 
 from zquantum.core.circuits import Circuit, circuit_from_dict, load_circuit
 from zquantum.core.estimation import estimate_expectation_values_by_averaging
@@ -42,6 +42,7 @@ def get_expectation_values_for_qubit_operator(
     backend_specs: Specs,
     circuit: Union[str, Circuit, Dict],
     qubit_operator: Union[str, SymbolicOperator, Dict],
+    n_samples: Optional[int] = None,
 ):
     """Measure the expectation values of the terms in an input operator with respect to
     the state prepared by the input circuit on the backend described by the
@@ -61,6 +62,8 @@ def get_expectation_values_for_qubit_operator(
         backend_specs: The backend on which to run the quantum circuit
         circuit: The circuit that prepares the state to be measured
         qubit_operator: The operator to measure
+        n_samples: The number of samples to collect. By default, it is the attribute
+            `n_samples` of the backend.
     """
     if isinstance(circuit, str):
         circuit = load_circuit(circuit)
@@ -73,7 +76,9 @@ def get_expectation_values_for_qubit_operator(
 
     backend = create_backend(backend_specs)
 
-    estimation_tasks = [EstimationTask(qubit_operator, circuit, backend.n_samples)]
+    if n_samples is None:
+        n_samples = backend.n_samples  # type: ignore
+    estimation_tasks = [EstimationTask(qubit_operator, circuit, n_samples)]
 
     expectation_values = estimate_expectation_values_by_averaging(
         backend, estimation_tasks
-- 
2.43.0


From 2fe9cf9e287882c746ec878dfa87635452832330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:31 +0000
Subject: [PATCH 75/89] fix: one-qubit hydrogen Hamiltonians with vanishing
 elements

---
 steps/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/steps/operators.py b/steps/operators.py
index c82d9b0..b912615 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -138,15 +138,15 @@ def get_one_qubit_hydrogen_hamiltonian(
 
     # H00
     H00 = normal_ordered(FermionOperator("0 1") * fermion_h * FermionOperator("1^ 0^"))
-    H00 = H00.terms[()]
+    H00 = H00.terms.get((), 0.0)
 
     # H11
     H11 = normal_ordered(FermionOperator("2 3") * fermion_h * FermionOperator("3^ 2^"))
-    H11 = H11.terms[()]
+    H11 = H11.terms.get((), 0.0)
 
     # H10
     H10 = normal_ordered(FermionOperator("2 3") * fermion_h * FermionOperator("1^ 0^"))
-    H10 = H10.terms[()]
+    H10 = H10.terms.get((), 0.0)
 
     # H01
     H01 = np.conj(H10)
-- 
2.43.0


From 168efba920ad93eecbf04547b91365a220fb4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 76/89] fix: remove inactive orbitals without core orbitals

---
 steps/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/operators.py b/steps/operators.py
index b912615..0b6f9a4 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -180,7 +180,7 @@ def remove_inactive_orbitals(
     interaction_operator = load_interaction_operator(interaction_operator)
 
     frozen_operator = _remove_inactive_orbitals(
-        interaction_operator, n_active=n_active, n_core=n_core
+        interaction_operator, n_active=n_active, n_core=n_core or 0
     )
 
     save_interaction_operator(frozen_operator, "frozen-operator.json")
-- 
2.43.0


From 095c66cf4cdf1a0b8ea978c85189e5e57f94c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:33 +0000
Subject: [PATCH 77/89] fix: leave the selection of preprocessor arguments to
 create_object

This reverts commit 2bf65bb: create_object already leaves out the arguments functions do not take.
---
 steps/measure.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/steps/measure.py b/steps/measure.py
index 6f3ab09..097e6dc 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -12,8 +12,6 @@ However keeping all the bitstrings from an experiment may create a very large
 amount of data so the default behavior is not to save the bitstrings.
 """
 
-import importlib
-import inspect
 import json
 from typing import Dict, List, Optional, Union
 
@@ -150,13 +148,6 @@ def get_bitstring_distribution(
     )
 
 
-def _takes_argument(specs: Dict, argument: str) -> bool:
-    """Whether the function or class in the specs takes the argument."""
-    module = importlib.import_module(specs["module_name"])
-    creator = getattr(module, specs["function_name"])
-    return argument in inspect.signature(creator).parameters
-
-
 def evaluate_ansatz_based_cost_function(
     ansatz_specs: Specs,
     backend_specs: Specs,
@@ -243,9 +234,7 @@ def evaluate_ansatz_based_cost_function(
                     estimation_tasks_transformation_specs
                 )
 
-            if prior_expectation_values is not None and _takes_argument(
-                estimation_tasks_transformation_specs, "prior_expectation_values"
-            ):
+            if prior_expectation_values is not None:
                 # Since we don't know which estimation task transformation uses
                 # prior_expectation_values, we add it to the kwargs of each one. If not
                 # used by a particular transformer, it will be ignored.
-- 
2.43.0


From 8655e54bc61ef2d036fdfd9d8e37a514124fdd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:40 +0000
Subject: [PATCH 78/89] fix: compare unitaries whose overlap has a vanishing
 first element

---
 src/python/zquantum/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index fa077fb..5d20170 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -162,7 +162,7 @@ def compare_unitary(u1: np.ndarray, u2: np.ndarray, tol: float = 1e-15) -> bool:
         raise Exception("The second input matrix is not unitary.")
 
     test_matrix = np.dot(u1.conj().T, u2)
-    phase = test_matrix.item((0, 0)) ** -1
+    phase = test_matrix.item((0, 0)).conjugate()
     return is_identity(phase * test_matrix, tol)
 
 
-- 
2.43.0


From b7a35da38ed47a7e3bfd8cd22bc2e8f03d338c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:40 +0000
Subject: [PATCH 79/89] fix: seed 0 makes random wavefunctions reproducible

---
 src/python/zquantum/core/testing/_initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/testing/_initialize.py b/src/python/zquantum/core/testing/_initialize.py
index b564d59..58ab97e 100644
--- a/src/python/zquantum/core/testing/_initialize.py
+++ b/src/python/zquantum/core/testing/_initialize.py
@@ -122,7 +122,7 @@ def create_random_isingop(nqubits, nterms, seed=None):
 
 
 def create_random_wavefunction(n_qubits, seed=None):
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     random_vector = [
-- 
2.43.0


From e85a408d1e25b18498bc4699eabe6c0be938bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 80/89] fix: saving molecular data never leaves the molecule
 without a file

---
 .../core/openfermion/chem/molecular_data.py        | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 8a3b331..6a4b138 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -15,7 +15,6 @@
 """Class and functions to store quantum chemistry data."""
 
 import os
-import shutil
 import uuid
 
 import h5py
@@ -730,7 +729,7 @@ class MolecularData(object):
         """Method to save the class under a systematic name."""
         # Create a temporary file and swap it to the original name in case
         # data needs to be loaded while saving
-        tmp_name = uuid.uuid4()
+        tmp_name = "{}_{}".format(self.filename, uuid.uuid4())
         with h5py.File("{}.hdf5".format(tmp_name), "w") as f:
             # Save geometry (atoms and positions need to be separate):
             d_geom = f.create_group("geometry")
@@ -906,15 +905,8 @@ class MolecularData(object):
                 ),
             )
 
-        # Remove old file first for compatibility with systems that don't allow
-        # rename replacement.  Catching OSError for when file does not exist
-        # yet
-        try:
-            os.remove("{}.hdf5".format(self.filename))
-        except OSError:
-            pass
-
-        shutil.move("{}.hdf5".format(tmp_name), "{}.hdf5".format(self.filename))
+        # Swap the files in one step, so that there is a complete file at any time
+        os.replace("{}.hdf5".format(tmp_name), "{}.hdf5".format(self.filename))
 
     def load(self):
         geometry = []
-- 
2.43.0


From 396934a8e3bd9fe37a54cee532f7954dbfb47b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 81/89] fix: load molecular data without general calculations

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 6a4b138..ccdca07 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -975,6 +975,8 @@ class MolecularData(object):
                         key.tobytes().decode("utf-8"): value
                         for key, value in zip(keys[...], values[...])
                     }
+                else:
+                    self.general_calculations = {}
             else:
                 # TODO: test the no cover
                 # no coverage here because pathway is check on
-- 
2.43.0


From b748fe315891a5b6a0dba491a678da1cd868f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 82/89] fix: load Hamiltonians with active electrons and all
 orbitals

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index ccdca07..60885c7 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -1252,8 +1252,10 @@ def load_molecular_hamiltonian(
         n_core_orbitals = (molecule.n_electrons - n_active_electrons) // 2
         occupied_indices = list(range(n_core_orbitals))
 
-    if n_active_orbitals is None:
+    if n_active_orbitals is None and n_active_electrons is None:
         active_indices = None
+    elif n_active_orbitals is None:
+        active_indices = list(range(n_core_orbitals, molecule.n_orbitals))
     else:
         active_indices = list(
             range(n_core_orbitals, n_core_orbitals + n_active_orbitals)
-- 
2.43.0


From 58011966c0d078af79d288a1d8df2ccc6825b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 83/89] fix: molecular data of an interaction operator gives
 back the operator

---
 .../transforms/repconversions/conversions.py    | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/conversions.py b/src/python/zquantum/core/openfermion/transforms/repconversions/conversions.py
index d6a6d99..15cbb91 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/conversions.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/conversions.py
@@ -164,11 +164,18 @@ def get_molecular_data(
     molecule.one_body_integrals = interaction_operator.one_body_tensor[
         numpy.ix_(reduction_indices, reduction_indices)
     ]
-    molecule.two_body_integrals = interaction_operator.two_body_tensor[
-        numpy.ix_(
-            reduction_indices, reduction_indices, reduction_indices, reduction_indices
-        )
-    ]
+    # The two-body coefficients of an operator include a factor of one half
+    molecule.two_body_integrals = (
+        2
+        * interaction_operator.two_body_tensor[
+            numpy.ix_(
+                reduction_indices,
+                reduction_indices,
+                reduction_indices,
+                reduction_indices,
+            )
+        ]
+    )
 
     # Fill in other metadata
     molecule.overlap_integrals = numpy.eye(molecule.n_orbitals)
-- 
2.43.0


From 29b18ee1c6065daaff84c444c863d8bf4c799da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 84/89] fix: molecular data that was loaded and saved again
 keeps its atoms

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 60885c7..de34e4a 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -756,7 +756,7 @@ class MolecularData(object):
             # Save n_atoms:
             f.create_dataset("n_atoms", data=self.n_atoms)
             # Save atoms:
-            f.create_dataset("atoms", data=numpy.string_(self.atoms))
+            f.create_dataset("atoms", data=numpy.array(self.atoms, dtype="S"))
             # Save protons:
             f.create_dataset("protons", data=self.protons)
             # Save n_electrons:
-- 
2.43.0


From 799724fe6d8a5de3686fd625371ef1153a4dfd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 85/89] fix: expectation values from RDMs of terms with
 negligible coefficients

---
 src/python/zquantum/core/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/hamiltonian.py b/src/python/zquantum/core/hamiltonian.py
index 236212d..1c424fe 100644
--- a/src/python/zquantum/core/hamiltonian.py
+++ b/src/python/zquantum/core/hamiltonian.py
@@ -245,7 +245,7 @@ def get_expectation_values_from_rdms(
         terms_iterator = qubitoperator.terms.items()
     reordered_qubitoperator = QubitOperator()
     for term, coefficient in terms_iterator:
-        reordered_qubitoperator += QubitOperator(term, coefficient)
+        reordered_qubitoperator.terms[term] = coefficient
     expectations_packed = interactionrdm.get_qubit_expectations(reordered_qubitoperator)
 
     expectations = np.array(list(expectations_packed.terms.values()))
-- 
2.43.0


From 7dd4c1cb64c96fa741d40771c39d8d94bb994196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 86/89] fix: comparing expectation values of more than one
 operator raised

---
 src/python/zquantum/core/measurement.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index abd4942..b182bea 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -176,8 +176,24 @@ class ExpectationValues:
 
         return cls(expectation_values, correlations, estimator_covariances)
 
-    def __eq__(self, __o: object) -> bool:
-        return self.__dict__ == __o.__dict__
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, ExpectationValues):
+            return NotImplemented
+
+        return np.array_equal(self.values, other.values) and all(
+            len(frames) == len(other_frames)
+            and all(
+                np.array_equal(frame, other_frame)
+                for frame, other_frame in zip(frames, other_frames)
+            )
+            for frames, other_frames in (
+                (self.correlations or [], other.correlations or []),
+                (
+                    self.estimator_covariances or [],
+                    other.estimator_covariances or [],
+                ),
+            )
+        )
 
 
 def sample_from_wavefunction(
-- 
2.43.0


From 635b40def93032b2d01ec23833d7634b4d8cd939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 87/89] fix: load custom gates named like builtin gates

---
 src/python/zquantum/core/circuits/_serde.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index b4fb3ec..9fe1ee2 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -101,6 +101,7 @@ def _circuit_to_dict(circuit: _circuit.Circuit):
             - "gates"
     """
     custom_gate_definitions = circuit.collect_custom_gate_definitions()
+    _validate_custom_gate_names(circuit, custom_gate_definitions)
     return {
         "schema": CIRCUIT_SCHEMA,
         "n_qubits": circuit.n_qubits,
@@ -121,6 +122,20 @@ def _circuit_to_dict(circuit: _circuit.Circuit):
     }
 
 
+def _validate_custom_gate_names(circuit, custom_gate_definitions):
+    """Gates are referred to by name, so it needs to tell builtin from custom ones."""
+    custom_names = {gate_def.gate_name for gate_def in custom_gate_definitions}
+    for gate in map(_circuit._unwrapped_gate, circuit.operations):
+        if (
+            isinstance(gate, _gates.MatrixFactoryGate)
+            and gate.name in custom_names
+            and not _circuit._is_custom_gate(gate)
+        ):
+            raise ValueError(
+                f"Builtin and custom gates with the same name exist: {gate.name}."
+            )
+
+
 @to_dict.register(list)
 def _circuitset_to_dict(circuitset: List[_circuit.Circuit]) -> Mapping:
     """
@@ -216,6 +231,11 @@ def _gate_from_dict(dict_, custom_gate_defs):
 
     Pass it a JSON dictionary and it'll try its best to return you a proper gate
     instance, regardless of the given gate type."""
+    if "wrapped_gate" not in dict_ and any(
+        gate_def.gate_name == dict_["name"] for gate_def in custom_gate_defs
+    ):
+        return _custom_gate_instance_from_dict(dict_, custom_gate_defs)
+
     try:
         return _builtin_gate_from_dict(dict_)
     except KeyError:
-- 
2.43.0


From abd5b77e6e9e536c9a438b258c0416187e308c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:13 +0000
Subject: [PATCH 88/89] Revert "fix: seed 0 makes random wavefunctions
 reproducible"

This reverts commit b7a35da38ed47a7e3bfd8cd22bc2e8f03d338c8a.
---
 src/python/zquantum/core/testing/_initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/testing/_initialize.py b/src/python/zquantum/core/testing/_initialize.py
index 58ab97e..b564d59 100644
--- a/src/python/zquantum/core/testing/_initialize.py
+++ b/src/python/zquantum/core/testing/_initialize.py
@@ -122,7 +122,7 @@ def create_random_isingop(nqubits, nterms, seed=None):
 
 
 def create_random_wavefunction(n_qubits, seed=None):
-    if seed is not None:
+    if seed:
         np.random.seed(seed)
 
     random_vector = [
-- 
2.43.0


From 4d85b9418cf4cb5243e1febb80fd81e945d37855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:25 +0000
Subject: [PATCH 89/89] fix: compare frames of one operator regardless of their
 dimensions

---
 src/python/zquantum/core/measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index b182bea..7db12f7 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -183,7 +183,7 @@ class ExpectationValues:
         return np.array_equal(self.values, other.values) and all(
             len(frames) == len(other_frames)
             and all(
-                np.array_equal(frame, other_frame)
+                np.array_equal(np.squeeze(frame), np.squeeze(other_frame))
                 for frame, other_frame in zip(frames, other_frames)
             )
             for frames, other_frames in (
-- 
2.43.0

