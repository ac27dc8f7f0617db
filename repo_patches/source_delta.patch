From e62225f79f227e03a6086a0185f2dd5b7d31c9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 01/27] fix: register the matrices of SQRTSWAP, ISWAP and
 ISQRTSWAP

---
 horqrux/matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horqrux/matrices.py b/horqrux/matrices.py
index 19128df..dab8f7a 100644
--- a/horqrux/matrices.py
+++ b/horqrux/matrices.py
@@ -53,6 +53,9 @@ OPERATIONS_DICT = {
     "T": _T,
     "I": _I,
     "SWAP": _SWAP,
+    "SQSWAP": _SQSWAP,
+    "ISWAP": _ISWAP,
+    "ISQSWAP": _ISQSWAP,
 }
 
 SPARSE_OPERATIONS_DICT = {k: BCOO.fromdense(mat) for k, mat in OPERATIONS_DICT.items()}
-- 
2.43.0


From 1ceb8792909ec82a0c4795c4964bbfe69a87149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 02/27] fix: derivative of a rotation multiplies only the
 cosine term by the generator

---
 horqrux/utils/operator_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index e439caf..2b170a0 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -169,8 +169,10 @@ def _(generator: Array, theta: float) -> Array:
     return (
         -1
         / 2
-        * (jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype) + 1j * jnp.cos(theta / 2))
-        * generator
+        * (
+            jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype)
+            + 1j * jnp.cos(theta / 2) * generator
+        )
     )
 
 
@@ -181,9 +183,8 @@ def _(generator: BCOO, theta: float) -> BCOO:
         / 2
         * (
             jnp.sin(theta / 2) * jax.experimental.sparse.eye(2, dtype=default_dtype)
-            + 1j * jnp.cos(theta / 2)
+            + 1j * jnp.cos(theta / 2) * generator
         )
-        * generator
     )
 
 
-- 
2.43.0


From 1a79af254cb0691343701e522ebfbf8784a6f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 03/27] fix: qubit support of a sequence is sorted like the one
 of a primitive

---
 horqrux/composite/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index ad31e8f..f0ddc17 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -27,7 +27,7 @@ class OpSequence:
 
     @property
     def qubit_support(self) -> tuple:
-        return tuple(set().union(*(op.qubit_support for op in self.operations)))
+        return tuple(sorted(set().union(*(op.qubit_support for op in self.operations))))
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
         return reduce(lambda state, gate: gate.__call__(state, values), self.operations, state)
-- 
2.43.0


From cc9f15f5ea9aeb0607c142b07e5bc0fc994964b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 04/27] fix: tensor of a sequence multiplies its operations in
 order of application

---
 horqrux/composite/sequence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index f0ddc17..71c7482 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -4,7 +4,6 @@ from dataclasses import dataclass, field
 from functools import reduce
 from typing import Any, Iterable
 
-import jax.numpy as jnp
 from jax import Array
 from jax.tree_util import register_pytree_node_class
 
@@ -53,7 +52,11 @@ class OpSequence:
                 "Expanding tensor operation requires a `full_support` argument "
                 "larger than or equal to the `qubit_support`."
             )
-        return reduce(jnp.matmul, map(lambda x: x.tensor(values, full_support), self.operations))
+        # operations apply from first to last, hence the later factor is on the left
+        return reduce(
+            lambda acc, mat: mat @ acc,
+            map(lambda x: x.tensor(values, full_support), self.operations),
+        )
 
     def __iter__(self) -> Iterable:
         def flatten(item: Any) -> Iterable:
-- 
2.43.0


From 72ddd1dcf3b2f37d514ab6bea2c3ad2d387c6f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 05/27] fix: Scale keeps a wrapped sequence or sum as one
 operation

---
 horqrux/composite/compose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index 4e0ff5b..6be714f 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -27,7 +27,9 @@ class Scale(OpSequence):
     def __init__(
         self, operations: Primitive | OpSequence | list, parameter_name: str | float
     ) -> None:
-        super().__init__(list(operations))  # type:ignore[arg-type]
+        # a sequence or sum is scaled as a whole
+        ops = [operations] if isinstance(operations, OpSequence) else list(operations)  # type:ignore[arg-type]
+        super().__init__(ops)
         self.parameter: str | float = parameter_name
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> Array:
-- 
2.43.0


From 5fbf9959202bc0090148588ec6b1718f62a13241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 06/27] fix: sparse and dense conversions of Scale keep all
 scaled operations

---
 horqrux/utils/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index d29f823..e8bd89c 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -73,12 +73,12 @@ def _(operations: OpSequence) -> OpSequence:
 
 @to_sparse.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_sparse(operations.operations[0]), operations.parameter)
+    return Scale([to_sparse(op) for op in operations.operations], operations.parameter)
 
 
 @to_dense.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_dense(operations.operations[0]), operations.parameter)
+    return Scale([to_dense(op) for op in operations.operations], operations.parameter)
 
 
 @to_sparse.register
-- 
2.43.0


From 3bc8a10ca1725a9995d7497526ff5597e0167a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 07/27] fix: sparse and dense conversions of a circuit keep its
 fixed parameters

---
 horqrux/utils/conversion.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index e8bd89c..18fb5e7 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -83,9 +83,17 @@ def _(operations: Scale) -> Scale:
 
 @to_sparse.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_sparse(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits,
+        [to_sparse(op) for op in operations.operations],
+        operations.fparams,
+    )
 
 
 @to_dense.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_dense(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits,
+        [to_dense(op) for op in operations.operations],
+        operations.fparams,
+    )
-- 
2.43.0


From 36d30a730ccc74da05e3fde3b9affeec0b807a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 08/27] fix: grouping by qubit does not move gates past
 multi-qubit gates

---
 horqrux/apply.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 186eb5f..6b18804 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -281,7 +281,8 @@ def group_by_index(gates: Iterable[Primitive]) -> Iterable[Primitive]:
     sorted_gates = []
     gate_batch = []
     for gate in gates:
-        if not is_controlled(gate.control):
+        # only single-qubit gates can be moved past each other
+        if not is_controlled(gate.control) and len(gate.target[0]) == 1:
             gate_batch.append(gate)
         else:
             if len(gate_batch) > 0:
-- 
2.43.0


From 96a11ad917cc773b74f2216be765978c9e1b825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 09/27] fix: apply_gates accepts empty lists and one-shot
 iterables of gates

---
 horqrux/apply.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 6b18804..93adcab 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -372,11 +372,12 @@ def prepare_sequence_reduce(
         operator, target, control = (operator_fn(values),), gate.target, gate.control
         noise += [gate.noise]
     else:
+        gate = list(gate)
         if group_gates:
             gate = group_by_index(gate)
         operator = tuple(getattr(g, op_type)(values) for g in gate)
-        target = reduce(add, [g.target for g in gate])
-        control = reduce(add, [g.control for g in gate])
+        target = reduce(add, [g.target for g in gate], ())
+        control = reduce(add, [g.control for g in gate], ())
         noise = [g.noise for g in gate]
         # merge when no noise is present
         if (noise == [None] * len(noise)) and merge_ops:
-- 
2.43.0


From b94a8cca1ca8bebff72065c166f96ba2c7187401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 10/27] fix: flattening a circuit returns (children, aux_data)
 and not the reverse

---
 horqrux/circuit.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index 0a3cccd..e5d7dba 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -50,16 +50,14 @@ class QuantumCircuit(OpSequence):
         return len(self.vparams)
 
     def tree_flatten(self) -> tuple:
-        children = (
-            self.operations,
-            self.fparams,
-        )
-        aux_data = (self.n_qubits,)
-        return (aux_data, children)
+        children = (self.operations,)
+        aux_data = (self.n_qubits, tuple(self.fparams))
+        return (children, aux_data)
 
     @classmethod
     def tree_unflatten(cls, aux_data: Any, children: Any) -> Any:
-        return cls(*aux_data, *children)
+        n_qubits, fparams = aux_data
+        return cls(n_qubits, *children, list(fparams))
 
 
 def hea(
-- 
2.43.0


From 688cd3725c503bbb81e734f759b79fd7c1b53b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 11/27] fix: overlap is the squared modulus of the inner
 product

---
 horqrux/utils/operator_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 2b170a0..23b3717 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -450,7 +450,7 @@ def inner(state: Array, projection: Array) -> Array:
 
 
 def overlap(state: Array, projection: Array) -> Array:
-    return jnp.power(inner(state, projection), 2).real
+    return jnp.square(jnp.abs(inner(state, projection)))
 
 
 def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
-- 
2.43.0


From dd8bb98bfefa1e8f82908db93ab51319e5f1c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 12/27] fix: shifted and renamed phase gates of GPSR remain
 phase gates, with their spectral gap

---
 horqrux/differentiation/gpsr/gpsr_utils.py | 4 ++--
 horqrux/primitives/parametric.py           | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index 0362ca3..5c36f9e 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -22,7 +22,7 @@ def to_shift(gate: Parametric, shift_value: float) -> Any:
         Any: A new Parametric (Any type due to clsmethod)
     """
     children, aux_data = gate.tree_flatten()
-    return Parametric.tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
+    return type(gate).tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
 
 
 def prepare_param_gates_seq(
@@ -127,7 +127,7 @@ def new_named_parametric(gate: Primitive) -> Parametric:
     """
     children, aux_data = gate.tree_flatten()
     new_name = str(uuid4())
-    new_gate: Parametric = Parametric.tree_unflatten(
+    new_gate: Parametric = type(gate).tree_unflatten(
         aux_data[:-2]
         + (
             new_name,
diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 6c13384..f3f1f04 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -213,6 +213,11 @@ class _PHASE(Parametric):
             jac = BCOO.fromdense(jac)
         return jac
 
+    @cached_property
+    def eigenvals_generator(self) -> Array:
+        # diag(1, exp(i * theta)) = exp(-i * theta / 2 * diag(0, -2)), controlled or not
+        return jnp.array([-2.0, 0.0])
+
     @property
     def name(self) -> str:
         base_name = "PHASE"
-- 
2.43.0


From a4a51d28705da63bd5c954fef31a78a0705d96a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 13/27] fix: GPSR detects repeated parameters whatever other
 values are given

---
 horqrux/differentiation/gpsr/analytical.py | 10 ++++++++--
 horqrux/differentiation/gpsr/shots.py      | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index f2134da..595aee6 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -100,13 +100,15 @@ def analytical_gpsr_bwd(
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
 
                 def jvp_component_repeated_param(param_name: str) -> Array:
                     shift_gates = param_to_gates_indices[param_name]
+                    if not shift_gates:
+                        return jvp_component(param_name)
 
                     def shift_jvp(ind: int) -> Array:
                         spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
@@ -189,7 +191,7 @@ def analytical_gpsr_jvp(
 
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
@@ -200,6 +202,9 @@ def analytical_gpsr_jvp(
                     for pname in legit_val_keys
                     for ind in param_to_gates_indices[pname]
                 }
+                # values which no gate uses keep their name
+                unused = [name for name in legit_val_keys if not param_to_gates_indices[name]]
+                values_map.update({name: name for name in unused})
                 values = {
                     temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
                 }
@@ -208,6 +213,7 @@ def analytical_gpsr_jvp(
                     for temp_name in values_map.keys()
                     for ind in param_to_gates_indices[values_map[temp_name]]
                 }
+                spectral_gap.update({name: jnp.array([2.0]) for name in unused})
             else:
                 spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
 
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index d2ced52..ed82617 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -72,13 +72,15 @@ def finite_shots_gpsr_backward(
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
 
                 def jvp_component_repeated_param(param_name: str, key: Array) -> Array:
                     shift_gates = param_to_gates_indices[param_name]
+                    if not shift_gates:
+                        return jvp_component(param_name, key)
                     shift_keys = random.split(key, len(shift_gates))
 
                     def shift_jvp(ind: int, key: Array) -> Array:
@@ -177,7 +179,7 @@ def finite_shots_jvp(
 
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
@@ -188,6 +190,9 @@ def finite_shots_jvp(
                     for pname in legit_val_keys
                     for ind in param_to_gates_indices[pname]
                 }
+                # values which no gate uses keep their name
+                unused = [name for name in legit_val_keys if not param_to_gates_indices[name]]
+                values_map.update({name: name for name in unused})
                 values = {
                     temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
                 }
@@ -196,6 +201,7 @@ def finite_shots_jvp(
                     for temp_name in values_map.keys()
                     for ind in param_to_gates_indices[values_map[temp_name]]
                 }
+                spectral_gap.update({name: jnp.array([2.0]) for name in unused})
 
             else:
                 spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
-- 
2.43.0


From e46f121f7f7d0fbd1899837d5bd3d12da767028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 14/27] fix: numeric angles are not parameter names

---
 horqrux/composite/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 71c7482..866f340 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -82,7 +82,7 @@ class OpSequence:
         """
         from horqrux.primitives import Parametric
 
-        return set([str(op.param) for op in list(iter(self)) if isinstance(op, Parametric)])  # type: ignore[type-var]
+        return set([op.param for op in list(iter(self)) if isinstance(op, Parametric) and op.is_parametric])  # type: ignore[type-var, misc]
 
     @property
     def n_vparams(self) -> int:
-- 
2.43.0


From 2973d9932c74d6909fd21cb54959a622e8822cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 15/27] fix: separate circuit and observable values work in
 adjoint, GPSR and shot expectations

---
 horqrux/differentiation/adjoint.py         | 6 ++++--
 horqrux/differentiation/gpsr/analytical.py | 6 ++++--
 horqrux/shots.py                           | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/horqrux/differentiation/adjoint.py b/horqrux/differentiation/adjoint.py
index a5b4b17..d70e79f 100644
--- a/horqrux/differentiation/adjoint.py
+++ b/horqrux/differentiation/adjoint.py
@@ -8,6 +8,7 @@ from horqrux.composite import Observable, OpSequence
 from horqrux.primitives.primitive import Primitive
 from horqrux.utils.operator_utils import OperationType, inner
 from horqrux.utils.sparse_utils import real_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def ad_expectation(
@@ -17,8 +18,9 @@ def ad_expectation(
     Run 'state' through a sequence of 'gates' given parameters 'values'
     and compute the expectation given an observable.
     """
-    out_state = apply_gates(state, list(iter(circuit)), values, OperationType.UNITARY)  # type: ignore[type-var]
-    projected_state = observable.forward(out_state, values)
+    values_circuit, values_observables = _values_processing(values)
+    out_state = apply_gates(state, list(iter(circuit)), values_circuit, OperationType.UNITARY)  # type: ignore[type-var]
+    projected_state = observable.forward(out_state, values_observables)
     return real_sp(inner(out_state, projected_state))
 
 
diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index 595aee6..8d4accf 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -21,6 +21,7 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import State
 from horqrux.utils.sparse_utils import stack_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def analytical_expectation(
@@ -41,12 +42,13 @@ def analytical_expectation(
     Returns:
         Array: Expectation values.
     """
+    values_circuit, values_observables = _values_processing(values)
     outputs = list(
         map(
             lambda observable: _ad_expectation_single_observable(
-                apply_gates(state, gates, values),
+                apply_gates(state, gates, values_circuit),
                 observable,
-                values,
+                values_observables,
             ),
             observables,
         )
diff --git a/horqrux/shots.py b/horqrux/shots.py
index 44c015a..ac8f83d 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -12,6 +12,7 @@ from horqrux.apply import apply_gates
 from horqrux.composite import Observable
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import DensityMatrix, State, expand_operator, num_qubits
+from horqrux.utils.values_utils import _values_processing
 
 
 @singledispatch
@@ -176,9 +177,10 @@ def finite_shots(
     Returns:
         Array: Expectation values.
     """
-    output_gates = apply_gates(state, gates, values)
+    values_circuit, values_observables = _values_processing(values)
+    output_gates = apply_gates(state, gates, values_circuit)
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
         output_gates.array = output_gates.array.reshape((d, d))
-    return eigen_sample(output_gates, observables, values, n_qubits, n_shots, key)
+    return eigen_sample(output_gates, observables, values_observables, n_qubits, n_shots, key)
-- 
2.43.0


From 14ca93e123479d757f3b9b1b4a6e92312638c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 16/27] fix: sampling does not reshape the density matrix of
 the caller

---
 horqrux/api.py   | 2 +-
 horqrux/shots.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/api.py b/horqrux/api.py
index 6d5ce14..b905d78 100644
--- a/horqrux/api.py
+++ b/horqrux/api.py
@@ -56,7 +56,7 @@ def sample(
     n_qubits = num_qubits(output_circuit)
     if isinstance(output_circuit, DensityMatrix):
         d = 2**n_qubits
-        output_circuit.array = output_circuit.array.reshape((d, d))
+        output_circuit = DensityMatrix(output_circuit.array.reshape((d, d)))
 
     probs = probabilities(output_circuit)
     return sample_from_probs(probs, n_qubits, n_shots)
diff --git a/horqrux/shots.py b/horqrux/shots.py
index ac8f83d..9d246b9 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -182,5 +182,5 @@ def finite_shots(
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
-        output_gates.array = output_gates.array.reshape((d, d))
+        output_gates = DensityMatrix(output_gates.array.reshape((d, d)))
     return eigen_sample(output_gates, observables, values_observables, n_qubits, n_shots, key)
-- 
2.43.0


From bb904a6c06252ce3dbaffcc49a94ae2bd441ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 17/27] fix: the array of a density matrix is a child of its
 pytree node

---
 horqrux/utils/operator_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 23b3717..58a81f3 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -36,9 +36,9 @@ class DensityMatrix:
 
     array: Array
 
-    def tree_flatten(self) -> tuple[tuple, tuple[Array]]:
-        children = ()
-        aux_data = (self.array,)
+    def tree_flatten(self) -> tuple[tuple[Array], tuple]:
+        children = (self.array,)
+        aux_data = ()
         return (children, aux_data)
 
     @classmethod
-- 
2.43.0


From 30459a38b86667e8f324240620c6e46f2fdd634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 18/27] fix: tensor of a gate with unsorted targets is
 expressed on the sorted qubit support

---
 horqrux/primitives/primitive.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 0e8fa6a..c5c73f3 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -17,8 +17,10 @@ from horqrux.utils.operator_utils import (
     _dagger,
     controlled,
     expand_operator,
+    hilbert_reshape,
     is_controlled,
     none_like,
+    permute_basis,
     zero_state,
 )
 
@@ -119,6 +121,10 @@ class Primitive:
             Array: Unitary representation taking into account the qubit support.
         """
         base_unitary = self._unitary(values)
+        if list(self.target[0]) != sorted(self.target[0]):
+            shape = base_unitary.shape
+            base_unitary = permute_basis(hilbert_reshape(base_unitary), self.target[0], True)
+            base_unitary = base_unitary.reshape(shape)
         if is_controlled(self.control):
             base_unitary = controlled(base_unitary, self.target, self.control)
         if full_support is None:
-- 
2.43.0


From d20e9f7f76a6144620f2b3da07be756497c583e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 19/27] fix: shot estimates of observables without a common
 eigenbasis use their own eigenvectors

---
 horqrux/shots.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/horqrux/shots.py b/horqrux/shots.py
index 9d246b9..227448a 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -101,7 +101,21 @@ def eigen_sample(
     eigs = jax.vmap(jnp.linalg.eigh)(jnp.stack(mat_obs))
     eigvecs, eigvals = align_eigenvectors(eigs.eigenvalues, eigs.eigenvectors)
     probs = eigen_probabilities(state, eigvecs)
-    return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)
+
+    def sample_jointly() -> Array:
+        return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)
+
+    def sample_separately() -> Array:
+        # without a common eigenbasis, each observable is measured in its own
+        probs_obs = jax.vmap(lambda vecs: eigen_probabilities(state, vecs))(eigs.eigenvectors)
+        return jax.vmap(
+            lambda k, a, p: jax.random.choice(key=k, a=a, p=p, shape=(n_shots,)).mean(axis=0)
+        )(jax.random.split(key, len(mat_obs)), eigs.eigenvalues, probs_obs)
+
+    # the aligned eigenvalues must reconstruct every observable from the common eigenvectors
+    rebuilt = jax.vmap(lambda vals: (eigvecs * vals) @ jnp.conjugate(eigvecs.T), in_axes=1)(eigvals)
+    aligned = jnp.allclose(rebuilt, jnp.stack(mat_obs), atol=1e-6)
+    return jax.lax.cond(aligned, sample_jointly, sample_separately)
 
 
 @jax.vmap
-- 
2.43.0


From 17e2c2141173ecc41332514fc4d8671e690665e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 20/27] fix: numpy integer and array qubit indices are
 normalised, so that such controls are not ignored

---
 horqrux/primitives/primitive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index c5c73f3..528205f 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -41,12 +41,13 @@ class Primitive:
     def parse_idx(
         idx: tuple,
     ) -> tuple:
-        if isinstance(idx, (int, np.int64)):
-            return ((idx,),)
+        # plain ints only: other integers would not be recognised as control qubits
+        if isinstance(idx, (int, np.integer)):
+            return ((int(idx),),)
         elif isinstance(idx, tuple):
-            return (idx,)
+            return (tuple(int(i) if isinstance(i, np.integer) else i for i in idx),)
         else:
-            return (idx.astype(int),)
+            return (tuple(np.atleast_1d(np.asarray(idx)).astype(int).tolist()),)
 
     def __post_init__(self) -> None:
         self.target = Primitive.parse_idx(self.target)
-- 
2.43.0


From 540f33e6d57d929cdc09377e295eda7e2d0f7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 21/27] fix: matrices of controlled gates can be computed under
 jit

---
 horqrux/utils/operator_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 58a81f3..1870a29 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -268,14 +268,15 @@ def prepare_controlled(
     full_dim = 2**ntotal_qubits
 
     # Compute the control mask using bit manipulation
-    control_mask = jnp.sum(
-        jnp.array(
+    # note: with numpy, as boolean indexing requires concrete indices when jitting
+    control_mask = np.sum(
+        np.array(
             [1 << (ntotal_qubits - control_qubit - 1) for control_qubit in control_ind_support]
         )
     )
 
     # Create indices for the controlled subspace
-    indices = jnp.arange(full_dim)
+    indices = np.arange(full_dim)
     controlled_indices = indices[(indices & control_mask) == control_mask]
     return full_dim, controlled_indices
 
-- 
2.43.0


From b9d2e91c7f630ddea7229501dbd3f2107d05be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 22/27] fix: sparse phase gates and sparse matrices of
 controlled gates can be compiled

---
 horqrux/primitives/parametric.py | 4 ++--
 horqrux/utils/operator_utils.py  | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index f3f1f04..20bd922 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -203,14 +203,14 @@ class _PHASE(Parametric):
         u = jnp.eye(2, 2, dtype=default_dtype)
         u = u.at[(1, 1)].set(jnp.exp(1.0j * self.parse_values(values)))
         if self.sparse:
-            u = BCOO.fromdense(u)
+            u = BCOO.fromdense(u, nse=2)
         return u
 
     def jacobian(self, values: dict[str, float] = dict()) -> Array:
         jac = jnp.zeros((2, 2), dtype=default_dtype)
         jac = jac.at[(1, 1)].set(1j * jnp.exp(1.0j * self.parse_values(values)))
         if self.sparse:
-            jac = BCOO.fromdense(jac)
+            jac = BCOO.fromdense(jac, nse=1)
         return jac
 
     @cached_property
diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 1870a29..d84e9d7 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -335,7 +335,9 @@ def _(
     controlled_op = controlled_op.at[jnp.ix_(controlled_indices, controlled_indices)].set(
         operator.todense()
     )
-    return BCOO.fromdense(controlled_op)
+    # note: the number of elements is given as it cannot be counted when jitting
+    n_identity = full_dim - operator.shape[0]
+    return BCOO.fromdense(controlled_op, nse=n_identity + operator.nse)
 
 
 def expand_operator(
-- 
2.43.0


From 2d678e95fafeba9fbde9026288ba8457baf28dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 23/27] fix: phase gates are pytree nodes like all other gates

---
 horqrux/primitives/parametric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 20bd922..fa181cc 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -198,6 +198,7 @@ def RZ(
     return Parametric("Z", target, control, noise, param=param, sparse=sparse)
 
 
+@register_pytree_node_class
 class _PHASE(Parametric):
     def _unitary(self, values: dict[str, float] = dict()) -> Array:
         u = jnp.eye(2, 2, dtype=default_dtype)
-- 
2.43.0


From 3533090da8dc1ba1e1ee73be91689cc978562262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 24/27] fix: GPSR gradients include parameters of observables
 and accept separate values

---
 horqrux/differentiation/gpsr/analytical.py | 49 ++++++++++++++++++----
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index 8d4accf..bef88a8 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -59,6 +59,18 @@ def analytical_expectation(
 jitted_analytical_exp = jax.jit(analytical_expectation)
 
 
+def _expectation_observables(
+    state: State,
+    gates: Union[Primitive, Iterable[Primitive]],
+    observables: list[Observable],
+    values_circuit: dict[str, float],
+    values_observables: dict[str, float],
+) -> Array:
+    """Compute the expectations analytically as a function of the values of the observables."""
+    values = {"circuit": values_circuit, "observables": values_observables}
+    return analytical_expectation(state, gates, observables, values)
+
+
 def analytical_gpsr_bwd(
     state: State,
     gates: Union[Primitive, Iterable[Primitive]],
@@ -88,10 +100,14 @@ def analytical_gpsr_bwd(
     def jvp_component(param_name: str) -> Array:
         up_val = values.copy()
         up_val[param_name] = up_val[param_name] + shift
-        f_up = jitted_analytical_exp(state, gates, observables, up_val)
+        f_up = jitted_analytical_exp(
+            state, gates, observables, {"circuit": up_val, "observables": values}
+        )
         down_val = values.copy()
         down_val[param_name] = down_val[param_name] - shift
-        f_down = jitted_analytical_exp(state, gates, observables, down_val)
+        f_down = jitted_analytical_exp(
+            state, gates, observables, {"circuit": down_val, "observables": values}
+        )
         grad = (
             spectral_gap[param_name]
             * (f_up - f_down)
@@ -131,7 +147,12 @@ def analytical_gpsr_bwd(
                 spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
 
     jvp = jnp.stack([jvp_caller(param) for param in val_keys]).sum(axis=-1)
-    return jvp
+    # the shift rule only holds for gates, observables are differentiated directly
+    jac_observables = jax.jacfwd(
+        partial(_expectation_observables, state, gates, observables, values)
+    )(values)
+    jvp_observables = [jac_observables[param].reshape(-1).sum() for param in val_keys]
+    return jvp + jnp.stack(jvp_observables)
 
 
 @partial(jax.custom_jvp, nondiff_argnums=(0, 1, 2))
@@ -184,9 +205,15 @@ def analytical_gpsr_jvp(
     Returns:
         tuple[Array, Array]: Forward eveluation and gradient
     """
-    values = primals[0]
-    tangent_dict = tangents[0]
-    fwd = analytical_gpsr_fwd(state, gates, observable, values)
+    values, values_observables = _values_processing(primals[0])
+    tangent_dict, tangent_observables = _values_processing(tangents[0])
+    fwd = analytical_gpsr_fwd(state, gates, observable, primals[0])
+    # the shift rule only holds for gates, observables are differentiated directly
+    jvp_observables = jax.jvp(
+        partial(_expectation_observables, state, gates, observable, values),
+        (values_observables,),
+        (tangent_observables,),
+    )[1]
 
     legit_val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
     values_map = None
@@ -227,13 +254,17 @@ def analytical_gpsr_jvp(
     def values_to_dict(x: Array) -> dict[str, Array]:
         return dict(zip(vals_to_dict, x))
 
+    def _expectation_shifted(values_circuit: dict[str, Array]) -> Array:
+        values_split = {"circuit": values_circuit, "observables": values_observables}
+        return analytical_gpsr_fwd(state, gates, observable, values_split)
+
     def jvp_caller(carry_grad: Array, pytree_ind_param: dict[str, Array]) -> tuple[Array, Array]:
         shift_vector = pytree_ind_param["shift"]
         spectral_gap = pytree_ind_param["spectral_gap"]
         up_val = values_to_dict(values_array + shift_vector)
-        f_up = analytical_gpsr_fwd(state, gates, observable, up_val)
+        f_up = _expectation_shifted(up_val)
         down_val = values_to_dict(values_array - shift_vector)
-        f_down = analytical_gpsr_fwd(state, gates, observable, down_val)
+        f_down = _expectation_shifted(down_val)
         grad = spectral_gap * (f_up - f_down) / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
         return carry_grad + grad, grad
 
@@ -253,4 +284,4 @@ def analytical_gpsr_jvp(
             grads_legit_dict[values_map[temp_name]].append(grad_dict[temp_name])
         grads = tuple(stack_sp(grads_legit_dict[name]).sum(axis=0) for name in legit_val_keys)
     jvp = (stack_sp(grads) * tangent_array).sum(axis=0)
-    return fwd, jvp.reshape(fwd.shape)
+    return fwd, jvp.reshape(fwd.shape) + jvp_observables
-- 
2.43.0


From bc4b22b9d51b5281db4187951bae9c7628830aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 25/27] fix: hardware-efficient ansatz on one qubit has no
 entangling gate

---
 horqrux/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index e5d7dba..249531e 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -89,7 +89,8 @@ def hea(
                 for fn, qubit in zip(rot_fns, [i for _ in range(len(rot_fns))])
             ]
             param_names += [op.param for op in ops]
-            ops += [NOT((i + 1) % n_qubits, i % n_qubits) for i in range(n_qubits)]  # type: ignore[arg-type]
+            if n_qubits > 1:
+                ops += [NOT((i + 1) % n_qubits, i % n_qubits) for i in range(n_qubits)]  # type: ignore[arg-type]
             gates += ops
 
     return gates
-- 
2.43.0


From cde8b833bd8a8ebba1f1715aa6a5ce9a37ed8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 26/27] fix: density matrices reject qubits outside the
 register

---
 horqrux/apply.py              | 4 ++++
 horqrux/differentiation/ad.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 93adcab..82fbf27 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -166,6 +166,10 @@ def _(
 
     # Apply operator to density matrix: ρ' = O ρ O†
     out_state = state.array
+    if not set(state_dims).issubset(range(out_state.ndim // 2)):
+        raise ValueError(
+            f"Qubits {state_dims} are not all among the {out_state.ndim // 2} of the density matrix."
+        )
     support_perm = state_dims + tuple(set(tuple(range(out_state.ndim // 2))) - set(state_dims))
 
     out_state = permute_basis(out_state, support_perm, False)
diff --git a/horqrux/differentiation/ad.py b/horqrux/differentiation/ad.py
index 608bbde..5a4e450 100644
--- a/horqrux/differentiation/ad.py
+++ b/horqrux/differentiation/ad.py
@@ -62,6 +62,10 @@ def _(
     values: dict[str, float],
 ) -> Array:
     n_qubits = num_qubits(state)
+    if not set(observable.qubit_support).issubset(range(n_qubits)):
+        raise ValueError(
+            f"Qubits {observable.qubit_support} are not all among the {n_qubits} of the density matrix."
+        )
     mat_obs = observable.tensor(values)
     d = 2**n_qubits
     prod = apply_operator(state.array, mat_obs, observable.qubit_support, (None,)).reshape((d, d))
-- 
2.43.0


From 32d013ee9676c4fd420dbcd375833706ba20a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:00 +0000
Subject: [PATCH 27/27] fix: adjoint expectation rejects a negative number of
 shots

---
 horqrux/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horqrux/api.py b/horqrux/api.py
index b905d78..8ce680e 100644
--- a/horqrux/api.py
+++ b/horqrux/api.py
@@ -136,6 +136,8 @@ def expectation(
     elif diff_mode == DiffMode.ADJOINT:
         if isinstance(state, DensityMatrix):
             raise TypeError("Adjoint does not support density matrices.")
+        if n_shots < 0:
+            raise ValueError("The number of shots should be positive.")
 
         return adjoint_expectation(state, circuit, observables, values)
 
-- 
2.43.0

