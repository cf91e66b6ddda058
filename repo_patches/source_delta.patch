From f32fddc6458b1c18c95aa502f369f6aa217f30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 01/39] fix: keep phases of products of many-qubit Pauli
 operators exact

---
 src/plaquette/pauli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 3d45e74..6610180 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1449,7 +1449,9 @@ def multiply(
         # The sign information is also entirely included in ``initial_phase`` and copied
         # to the sign bit only to be used in those algorithms that require it. If we
         # don't do this, we will ignore minus-signs from ``i`` factors.
-        phase = initial_phase * 1j**phase_exponent * (1 - 2 * ans[-1])
+        #
+        # Powers of ``1j`` are exact only for small exponents, hence the ``% 4``.
+        phase = initial_phase * 1j ** (phase_exponent % 4) * (1 - 2 * int(ans[-1]))
         if phase.imag != 0:
             sign_bit = 1 if phase.imag < 0 else 0
         elif phase.real != 0:
-- 
2.43.0


From f28b39fc909ab977349a99365183ac85ea1bec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 02/39] fix: multiply() honours initial_phase for one factor
 and accepts any number of factors

---
 src/plaquette/pauli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 6610180..9b3ca97 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1423,12 +1423,16 @@ def multiply(
         raise ValueError("At least one operator is necessary")
     elif len(operators) == 1:
         # If only one operator is given, treat this product as being with an identity.
-        return operators[0], -1 if operators[0][-1] else 1
+        return multiply(
+            operators[0], np.zeros_like(operators[0]), initial_phase=initial_phase
+        )
     elif len(operators) > 2:
         prod, phase = multiply(
             operators[-2], operators[-1], initial_phase=initial_phase
         )
-        return multiply(*operators[:-2], prod, initial_phase=phase)
+        for operator in reversed(operators[:-2]):
+            prod, phase = multiply(operator, prod, initial_phase=phase)
+        return prod, phase
     else:
         if operators[0].shape != operators[1].shape:
             raise ValueError("Operators must have the same shape.")
-- 
2.43.0


From f0b855b28b33a204ce971a516ca41123746b64ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 03/39] fix: build identity Pauli operators from strings and
 dictionaries

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 9b3ca97..0f4ea60 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -345,7 +345,7 @@ def dict_to_pauli(ops: PauliDict, qubits: Optional[int] = None) -> Tableau:
             from ``ops``'s keys.
     """
     # TODO: add tests
-    max_qubit_index = max(ops.keys())
+    max_qubit_index = max(ops.keys(), default=-1)
     if qubits is None:
         qubits = max_qubit_index + 1
 
-- 
2.43.0


From ac8b62171ac2ad67b6eeff53759209c8e1ae53ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 04/39] fix: measure() accepts the identity operator

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 0f4ea60..bcab2ce 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -700,7 +700,7 @@ def measure(
     # Outcome is random if one meas_op does not commute with at least one
     # stabilizer, which appear after n_qubits. We don't care about not commuting
     # with the de-stabilisers
-    if nonzero[-1] >= number_of_qubits:
+    if nonzero.size > 0 and nonzero[-1] >= number_of_qubits:
         # Find the first non-commuting (with meas_op) stabilizer
         first_nc_stab = nonzero[nonzero >= number_of_qubits][0]
         index_pos = np.where(nonzero == first_nc_stab)[0][0]
-- 
2.43.0


From e794bcfbfbcc37aaca43b85be27335b75cee380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 05/39] fix: destructive measurement of more than one qubit

---
 src/plaquette/pauli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index bcab2ce..a170e2d 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -489,8 +489,6 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
         be done highest-index first. The relationship target-forced outcome
         is preserved also at the output.
     """
-    n_q = count_qubits(state)[0]
-
     if isinstance(targets, int):
         targets = [targets]
 
@@ -536,7 +534,10 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
     for sorted_idx in reversed(np.argsort(targets)):
         state, m = measure(
             state,
-            single_qubit_pauli_operator(base, targets[sorted_idx], n_q),
+            # tracing out a qubit makes the state smaller
+            single_qubit_pauli_operator(
+                base, targets[sorted_idx], count_qubits(state)[0]
+            ),
             forced_outcome=_fo[sorted_idx],
         )
         measurement_results[sorted_idx] = m
-- 
2.43.0


From 498c22d24c4f67b5dd24a1e875541e8988d54c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 06/39] fix: apply_operator() accepts numpy arrays

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index a170e2d..d0539ee 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -133,7 +133,7 @@ def apply_operator(op: Tableau, state: Tableau) -> Tableau:
     if state.ndim != 2:
         raise ValueError("`state` must be a 2D numpy array")
 
-    if isinstance(op, np.ndarray):
+    if not isinstance(op, np.ndarray):
         raise TypeError("`op` must be a numpy array")
 
     if op.ndim == 1:
-- 
2.43.0


From 6771d4a3996dd5f851093be44e9ef5641845dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 07/39] fix: insert_qubit_at() and append_qubit() add the
 requested qubits

---
 src/plaquette/pauli.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index d0539ee..6e8fa10 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -408,15 +408,14 @@ def insert_qubit_at(state: Tableau, pos: int | Sequence[int]) -> Tableau:
             "you're looking for pauli.pad_operator()?"
         )
     number_of_qubits = state.shape[1] // 2
-    if isinstance(pos, int):
-        pos = np.array([pos])
+    pos = np.sort(np.atleast_1d(pos))
     if (pos > number_of_qubits).any():
         raise IndexError(
             f"Cannot insert a new qubit at position {pos} for a state with "
             f"{number_of_qubits} qubits."
         )
-    h_pos = np.concatenate((pos, np.array(pos) + number_of_qubits))
-    number_of_missing_qubits = np.max(h_pos) - number_of_qubits
+    number_of_missing_qubits = len(pos)
+    h_pos = np.concatenate((pos, pos + number_of_qubits))
     v_pos = np.concatenate(
         (
             [number_of_qubits] * number_of_missing_qubits,
@@ -426,9 +425,13 @@ def insert_qubit_at(state: Tableau, pos: int | Sequence[int]) -> Tableau:
 
     state = np.insert(state, h_pos, 0, axis=1)
     state = np.insert(state, v_pos, 0, axis=0)
-    number_of_qubits += number_of_missing_qubits
-    state[v_pos[:number_of_qubits], h_pos[:number_of_qubits]] = 1
-    state[v_pos[number_of_qubits:], h_pos[number_of_qubits:-1]] = 1
+    # Destabiliser X and stabiliser Z for each of the new qubits, whose rows come
+    # after those of the old qubits.
+    new_qubits = np.arange(number_of_missing_qubits)
+    new_columns = pos + new_qubits
+    total_qubits = number_of_qubits + number_of_missing_qubits
+    state[number_of_qubits + new_qubits, new_columns] = 1
+    state[total_qubits + number_of_qubits + new_qubits, total_qubits + new_columns] = 1
     return state
 
 
-- 
2.43.0


From 35c0c24884c2bf361154319b7fd551aec620869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 08/39] fix: reset_qubits_to_eigenstate() corrects the outcome
 for Y eigenstates

---
 src/plaquette/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 6e8fa10..c57965b 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1261,8 +1261,6 @@ def reset_qubits_to_eigenstate(
     """
     if not isinstance(state, np.ndarray):
         raise TypeError(f"`state` must be a numpy array, not '{type(state)}'.")
-    # No Ys yet please
-    # What have thei done to iou?
     if isinstance(targets, int):
         targets = [targets]
 
@@ -1277,6 +1275,8 @@ def reset_qubits_to_eigenstate(
                 state = x(state, qubit)
             elif pauli == "X" or pauli == "-X":
                 state = z(state, qubit)
+            elif pauli == "Y" or pauli == "-Y":
+                state = x(state, qubit)
     return state
 
 
-- 
2.43.0


From 2099c740eb41d853a0df8699f945b120ab1cfb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 09/39] fix: undo the basis change after measuring X logical
 operators without ancilla

---
 src/plaquette/circuit/generator.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 60cf239..cd9f2aa 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -238,7 +238,9 @@ class QECCircuitGenerator:
             self.apply_measurement_error(op)
         self.apply_gate_and_error("M", ancilla, None, with_errors)
 
-    def measure_logical_ops(self, logop_indices: Sequence[int]):
+    def measure_logical_ops(
+        self, logop_indices: Sequence[int], restore_basis: bool = False
+    ):
         """Measure logical operators.
 
         Args:
@@ -246,6 +248,9 @@ class QECCircuitGenerator:
                 Specifies which logical operators should be measured. See
                 :meth:`plaquette.codes.StabilizerCode.logical_ops_to_indices` for
                 details.
+            restore_basis:
+                Whether to return measured data qubits to the computational basis
+                after each operator. Needed whenever more operations follow.
         """
         for i in logop_indices:
             op = self.lat.logical_ops[i]
@@ -262,6 +267,12 @@ class QECCircuitGenerator:
                         case lattice.Pauli.Y:
                             raise ValueError("Pauli Y not implemented yet")
                     self.apply_gate_and_error("M", dataqubit, None, with_errors=False)
+                if restore_basis:
+                    for edge in op.edges:
+                        if edge.factor == lattice.Pauli.X:
+                            self.apply_gate_and_error(
+                                "H", edge.data.equbit_idx, None, with_errors=False
+                            )
             else:
                 self.measure_op(op, with_errors=False)
 
@@ -355,7 +366,7 @@ class QECCircuitGenerator:
         if lcomm.any():
             raise ValueError("Some measured logical operators do not commute")
         # Measure logical operators for state preparation
-        self.measure_logical_ops(logop_indices)
+        self.measure_logical_ops(logop_indices, restore_basis=True)
         # Measure stabilizer generators for state preparation (without errors)
         self.measure_stabgens(with_errors=False)
         for _ in range(self.code.n_rounds - 1):
@@ -368,7 +379,7 @@ class QECCircuitGenerator:
         # Measure last round of stabilizer generators (without errors)
         self.measure_stabgens(with_errors=False)
         # Measure logical operators for state verification
-        self.measure_logical_ops(logop_indices)
+        self.measure_logical_ops(logop_indices, restore_basis=True)
         return self.cb.circ
 
 
-- 
2.43.0


From 7e8f90e09ad2443ba877b06bf6d791972beb2643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 10/39] fix: unpack results of measured logical operators of
 any weight

---
 src/plaquette/device/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index d99abf0..776cbbc 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -234,7 +234,12 @@ class MeasurementSample:
         """
         if not logical_ancilla:
             # Default behavior
-            code_distance = count_qubits(code.logical_ops, include_identities=False)[0]
+            # The weight of the measured operators, which follows from the number of
+            # results as X and Z logical operators can have different weights.
+            n_ancilla_results = (code.n_rounds + 1) * code.n_stabgens
+            code_distance = (len(raw_results) - n_ancilla_results) // (
+                2 * code.n_logical_qubits
+            )
 
             logical_op_initial = np.array(
                 [
-- 
2.43.0


From 92f092ba9cbafeaab141228a1a5232bcccb91741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 11/39] fix: run the current circuit, and keep the backend when
 given a CircuitBuilder

---
 src/plaquette/device/__init__.py |  3 +++
 src/plaquette/device/_stimsim.py | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index 776cbbc..4b88b34 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -412,6 +412,9 @@ class Device:
         # backend is None in the case of a local simulator, but now we
         # can actually create one, since we have a circuit
         if self._backend_name in local_simulators:
+            if isinstance(circuit, plaq_circuit.CircuitBuilder):
+                # simulators keep only the circuit contained in the builder
+                circuit = circuit.circ
             if self._backend is None or self.circuit is not circuit:
                 self._backend = self._backend_class(
                     circuit, *self._args, **self._kwargs
diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 146a6b2..84b2e2f 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -145,16 +145,22 @@ class StimSimulator(device.AbstractSimulator):
                 "Only a Circuit or a CircuitBuilder can be used in a simulator"
             )
         self.batch_size = batch_size
-        # Convert the circuit to Stim format. A sampler is not built until an RNG
-        # is supplied.
-        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
-        self.meas_is_erasure = np.array(is_erasure)
+        self._convert_circuit()
         if stim_seed is None:
             self.stim_seed = plaquette.rng.integers(0, 2**63)
         else:
             self.stim_seed = stim_seed
         self.reset()
 
+    def _convert_circuit(self):
+        """Convert the circuit to Stim format.
+
+        A sampler is not built until an RNG is supplied.
+        """
+        self._converted_gates = list(self.circ.gates)
+        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
+        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
+
     def reset(self, new_seed: Optional[int] = None):
         """Compile a new Stim sampler.
 
@@ -173,6 +179,10 @@ class StimSimulator(device.AbstractSimulator):
         # Sample a new match if necessary.
         if not after_reset:
             raise ValueError("Stim does not allow sampling without resetting")
+        if self.circ.gates != self._converted_gates:
+            # The circuit has been changed since it was converted
+            self._convert_circuit()
+            self.reset()
         if self.batch_remaining == 0:
             self.batch = self.stim_sampler.sample(shots=self.batch_size)
             self.batch_remaining = self.batch_size
-- 
2.43.0


From 268c80cd54ae21422245e9930e9096b70b24b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 12/39] fix: translate DEPOLARIZE to Stim

---
 src/plaquette/device/_stimsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 84b2e2f..4fe0fa5 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -55,7 +55,7 @@ def circuit_to_stim(circ: circuit.Circuit) -> tuple[stim.Circuit, list[bool]]:
                 res.append(name, args)
                 meas_is_erasure.extend([False] * len(args))
             case "DEPOLARIZE":
-                res.append(name, args, 1.0)
+                res.append("PAULI_CHANNEL_1", args, [1 / 3] * 3)
             case "E_PAULI":
                 assert len(args) == 4
                 res.append("PAULI_CHANNEL_1", args[3], args[:3])
-- 
2.43.0


From 8a0365418a2798fdb1233c4e746c09b26ce79275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 13/39] fix: accept Pauli channels whose probabilities sum up
 to one within rounding

---
 src/plaquette/device/_circuitsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/device/_circuitsim.py b/src/plaquette/device/_circuitsim.py
index 9de78f2..ff91207 100644
--- a/src/plaquette/device/_circuitsim.py
+++ b/src/plaquette/device/_circuitsim.py
@@ -161,14 +161,14 @@ class CircuitSimulator(device.AbstractSimulator):
                     # Apply I, X, Y or Z with 25% probability each.
                     self._apply_pauli_from_int(qubit, plaquette.rng.integers(0, 4))
             case "E_PAULI":
-                p = (1 - sum(args[:3]), *args[:3])
+                p = (max(0.0, 1 - sum(args[:3])), *args[:3])
                 qubit = args[3]
                 sample = plaquette.rng.choice(range(4), p=p)
                 self._apply_pauli_from_int(qubit, sample)
             case "E_PAULI2":
                 # Order of probabilities is:
                 # 0...15: II IX IY IZ XI XX ... ZY ZZ
-                p = (1 - sum(args[:15]), *args[:15])
+                p = (max(0.0, 1 - sum(args[:15])), *args[:15])
                 qubits = args[15:]
                 sample = plaquette.rng.choice(range(16), p=p)
                 p1, p2 = divmod(sample, 4)
-- 
2.43.0


From d80c2950e792afdd10cd59fd385d4a99f51fdc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 14/39] fix: a fresh run of the circuit simulator starts
 outside of any ERROR group

---
 src/plaquette/device/_circuitsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plaquette/device/_circuitsim.py b/src/plaquette/device/_circuitsim.py
index ff91207..cebe7ca 100644
--- a/src/plaquette/device/_circuitsim.py
+++ b/src/plaquette/device/_circuitsim.py
@@ -233,3 +233,4 @@ class CircuitSimulator(device.AbstractSimulator):
         self.state = device.QuantumState(self.circ.number_of_qubits)
         self.meas_results = []
         self.erasure = []
+        self.in_error = False
-- 
2.43.0


From d237db919408dc33707869684a37ee622fc188b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 15/39] fix: DecoderInterface.from_code() accepts weights

---
 src/plaquette/decoders/decoderbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index 2e3b8e8..b3a5561 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -373,7 +373,7 @@ class DecoderInterface:
                                 errordata["pauli"][q][k] = 1e-15  # type: ignore
                     if erasures and not errordata["erasure"].get(q):
                         errordata["erasure"][q] = {"p": 0}
-        else:
+        elif weights is None:
             errordata: ErrorDataDict = {  # type: ignore[no-redef]
                 "pauli": {
                     q: _default_pauli_errors
-- 
2.43.0


From 9aabbe63cb2aa40b790161184dcd0a6c395aac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 16/39] fix: ErrorData.update() and update_from_csv() apply the
 given tables

---
 src/plaquette/errors/__init__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index a6e09b1..1f84444 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -747,18 +747,18 @@ class ErrorData:  # noqa: D101
                 If ``False``, just updates overlapping locations in the dataframe.
                 and missing locations are appended to the dataframe
         """
-        if qubit_errors:
+        if qubit_errors is not None:
             if overwrite:
-                self.qubit_errors = qubit_errors
+                self.qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
             else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.colums:
+                qubit_errors = qubit_errors.set_index(["qubit_id"], drop=True)
+                for col in qubit_errors.columns:
                     if col not in self.qubit_errors.columns:
                         self.qubit_errors[col] = None
                     self.qubit_errors.update(qubit_errors.loc[:, col])
 
             self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
-        if gate_errors:
+        if gate_errors is not None:
             if overwrite:
                 self.gate_errors = gate_errors
             else:
@@ -787,13 +787,14 @@ class ErrorData:  # noqa: D101
         if qubit_error_csv:
             qubit_errors = pd.read_csv(qubit_error_csv)
             if overwrite:
-                self.qubit_errors = qubit_errors
+                self.qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
             else:
                 qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
                 for col in qubit_errors.columns:
                     if col not in self.qubit_errors.columns:
                         self.qubit_errors[col] = None
                     self.qubit_errors.update(qubit_errors.loc[:, col])
+            self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
 
         if gate_error_csv:
             gate_errors = pd.read_csv(gate_error_csv)
-- 
2.43.0


From 815700d4549f61d3ef09d6ae2ed25259c01f9312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 17/39] fix: ignore empty entries of the qubit error table

---
 src/plaquette/errors/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 1f84444..fc72c2b 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -880,7 +880,8 @@ class ErrorData:  # noqa: D101
                             if self.qubit_errors["qubit_type"][idx] == "data"
                         }
                     for k, v in qubit_errors["pauli"].items():
-                        v[f"{e.casefold()}"] = self.qubit_errors[e][k]  # type: ignore
+                        if not pd.isna(p := self.qubit_errors[e][k]):
+                            v[f"{e.casefold()}"] = p  # type: ignore
 
                 case "erasure":
                     if qubit_errors.get("erasure") is None:
@@ -891,7 +892,8 @@ class ErrorData:  # noqa: D101
                         }
 
                     for key, val in qubit_errors["erasure"].items():
-                        val["p"] = self.qubit_errors[e][key]
+                        if not pd.isna(p := self.qubit_errors[e][key]):
+                            val["p"] = p
 
                 case "measurement":
                     if qubit_errors.get("measurement") is None:
@@ -904,7 +906,8 @@ class ErrorData:  # noqa: D101
                             }
                         )
                     for key, val in qubit_errors["measurement"].items():
-                        val["p"] = self.qubit_errors[e][key]
+                        if not pd.isna(p := self.qubit_errors[e][key]):
+                            val["p"] = p
 
                 case "fabrication":
                     pass
-- 
2.43.0


From dfe28ab0b178e5489f2379b62840d7f85aaf0848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 18/39] fix: accept a single error channel given as string in
 the gate error table

---
 src/plaquette/errors/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index fc72c2b..394f4de 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -923,6 +923,10 @@ class ErrorData:  # noqa: D101
 
         for row in self.gate_errors.itertuples():
             if row.gate in self.enabled_gate_errors:
+                channels = row.induced_errors
+                if isinstance(channels, str):
+                    # a single channel which was not wrapped into a list
+                    channels = [channels]
                 match row.gate:
                     # single qubit gate errors
                     case "H" | "M" | "R":
@@ -934,14 +938,14 @@ class ErrorData:  # noqa: D101
                             ] = SinglePauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
-                                    for k, v in zip(row.induced_errors, row.probs)
+                                    for k, v in zip(channels, row.probs)
                                 }
                             )
                     # two qubit gate errors
                     case "CX" | "CZ":
                         if gate_errors_dict.get(row.gate) is None:
                             gate_errors_dict[row.gate] = {}
-                        if not set(single_paulis).isdisjoint(set(row.induced_errors)):
+                        if not set(single_paulis).isdisjoint(set(channels)):
                             raise KeyError("Two qubit channels must be provided!")
                         for i in range(0, len(row.on_qubits), 2):
                             gate_errors_dict[row.gate][
@@ -949,7 +953,7 @@ class ErrorData:  # noqa: D101
                             ] = TwoPauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
-                                    for k, v in zip(row.induced_errors, row.probs)
+                                    for k, v in zip(channels, row.probs)
                                 }
                             )
 
-- 
2.43.0


From 6c83b80f6742b47baac6e32590368c4e3661ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 19/39] fix: add erasure instructions for all data qubits if
 there are any erasures

---
 src/plaquette/circuit/generator.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index cd9f2aa..9766a2e 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -125,8 +125,19 @@ class QECCircuitGenerator:
         )
         self.cb = circuit.CircuitBuilder(circuit.Circuit())
 
-    def apply_dataqubit_errors(self):
-        """Apply errors to data qubits."""
+    def apply_dataqubit_errors(self, flag_all: bool = False):
+        """Apply errors to data qubits.
+
+        Args:
+            flag_all:
+                If there are any erasure errors, add an erasure instruction for *every*
+                data qubit (with probability zero for qubits without erasure errors).
+                Then, the position of a flag in the results identifies its qubit.
+        """
+        erasures = self.qubit_errors["erasure"]
+        flag_all = flag_all and any(
+            erasures.get(v.equbit_idx) for v in self.lat.dataqubits
+        )
         for v in self.lat.dataqubits:
             p = self.qubit_errors["pauli"].get(v.equbit_idx, None)
             if p:
@@ -136,9 +147,9 @@ class QECCircuitGenerator:
                     p.get("z", 0.0),
                     v.equbit_idx,
                 )
-            p = self.qubit_errors["erasure"].get(v.equbit_idx, None)
-            if p:
-                self.cb.e_erase(p.get("p", 0.0), v.equbit_idx)
+            p = erasures.get(v.equbit_idx, None)
+            if p or flag_all:
+                self.cb.e_erase(p.get("p", 0.0) if p else 0.0, v.equbit_idx)
 
     def apply_measurement_error(self, op: lattice.OpVertex):
         """Apply measurement error to ancilla qubit of given operator."""
@@ -371,11 +382,11 @@ class QECCircuitGenerator:
         self.measure_stabgens(with_errors=False)
         for _ in range(self.code.n_rounds - 1):
             # Apply data qubit errors
-            self.apply_dataqubit_errors()
+            self.apply_dataqubit_errors(flag_all=True)
             # Measure one round of stabilizer generators
             self.measure_stabgens(with_errors=True)
         # Apply data qubit errors on last round
-        self.apply_dataqubit_errors()
+        self.apply_dataqubit_errors(flag_all=True)
         # Measure last round of stabilizer generators (without errors)
         self.measure_stabgens(with_errors=False)
         # Measure logical operators for state verification
-- 
2.43.0


From 41f21f34794cd67e8e1d4c595a630b09b42e8a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 20/39] fix: treat empty erasure entries of the error table as
 probability zero

---
 src/plaquette/errors/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 394f4de..8afece4 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -892,8 +892,8 @@ class ErrorData:  # noqa: D101
                         }
 
                     for key, val in qubit_errors["erasure"].items():
-                        if not pd.isna(p := self.qubit_errors[e][key]):
-                            val["p"] = p
+                        p = self.qubit_errors[e][key]
+                        val["p"] = 0.0 if pd.isna(p) else p
 
                 case "measurement":
                     if qubit_errors.get("measurement") is None:
-- 
2.43.0


From e1ec74b2df7c12ba523ad3f32528943769bb00f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 21/39] fix: keep the fabrication settings of gate errors given
 as dictionary

---
 src/plaquette/frontend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index f1b80f8..39dd431 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1174,6 +1174,7 @@ class GateErrorsConfig:
             H=cast(_GateErrorMetadata, configdata.get("H")),
             M=cast(_GateErrorMetadata, configdata.get("M")),
             R=cast(_GateErrorMetadata, configdata.get("R")),
+            fabrication=cast(_GateErrorMetadata, configdata.get("fabrication")),
         )
 
     @classmethod
-- 
2.43.0


From e553508cf1d3fdbd7b7431a737dbf91a9e2fdc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 22/39] fix: use the documented default for unspecified decoder
 weights

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 39dd431..2c634a6 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1706,7 +1706,7 @@ class DecoderConfig:
             config_dict: Dict containing decoder configurations.
         """
         config_dict.setdefault("name", "PyMatchingDecoder")
-        config_dict.setdefault("weighted", False)
+        config_dict.setdefault("weighted", config_dict["name"] != "UnionFindNoWeights")
         return cls(
             name=cast(str, config_dict.get("name")),
             weighted=cast(bool, config_dict.get("weighted")),
-- 
2.43.0


From 29c47fc7d94f8583c8e525fb190e7d774902b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 23/39] fix: ExperimentConfig.device checks that the device was
 built

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 2c634a6..6cc1b60 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1865,7 +1865,7 @@ class ExperimentConfig:
     @property
     def device(self):
         """The built :class:`~.AbstractSimulator` object in the experiment."""
-        if self._circuit is None:
+        if self._device is None:
             raise ValueError(
                 "Simulator has not been instantiated yet, use build() or "
                 + "build_device() method to do so!"
-- 
2.43.0


From 18f9a2a3d50ebb84b851e84ab96143d17f08abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 24/39] fix: use the default general settings if a
 configuration has none

---
 src/plaquette/frontend/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 6cc1b60..cf672cd 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2091,6 +2091,12 @@ class ExperimentConfig:
                 'device': {'name': 'stim', 'shots': 10000}
             }
         """  # noqa
+        config_dict.setdefault(
+            "general",
+            GeneralConfig(
+                logical_op="X", qec_property=["logical_error_rate"], seed=12345
+            ),
+        )
         config_dict.setdefault("device", {})
         config_dict.setdefault("errors", {})
         config_dict.setdefault("decoder", {})
-- 
2.43.0


From 23ff53d83fa5000bac76f8f64d296606ec518099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 25/39] fix: reject code sizes and numbers of rounds which are
 not positive

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index cf672cd..66896fe 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -119,7 +119,7 @@ class CodeConfig:
         if self.name in self.VALID_CODES[4:]:
             self.size = -1
         elif (
-            (self.size < 0 or self.rounds < 0)
+            (self.size < 1 or self.rounds < 1)
             or not (isinstance(self.size, int) and isinstance(self.rounds, int))
             and self.name in self.VALID_CODES[:4]
         ):
-- 
2.43.0


From bb6a5cbdbc444cef4e6b4e204df8191ac063553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 26/39] fix: validate the number of rounds of every code

---
 src/plaquette/frontend/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 66896fe..cf5d3b6 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -116,13 +116,13 @@ class CodeConfig:
         if self.name not in self.VALID_CODES:
             raise ValueError(f"{self.name} is not yet supported!")
 
+        if not isinstance(self.rounds, int) or self.rounds < 1:
+            raise ValueError(
+                "For the given code, size and round must be positive integers!"
+            )
         if self.name in self.VALID_CODES[4:]:
             self.size = -1
-        elif (
-            (self.size < 1 or self.rounds < 1)
-            or not (isinstance(self.size, int) and isinstance(self.rounds, int))
-            and self.name in self.VALID_CODES[:4]
-        ):
+        elif not isinstance(self.size, int) or self.size < 1:
             raise ValueError(
                 "For the given code, size and round must be positive integers!"
             )
-- 
2.43.0


From f955794d4bf68bf5029ff448755909a6b81d3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 27/39] fix: ExperimentConfig.run() reports the logical error
 rate

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index cf5d3b6..4eef2e9 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2263,7 +2263,7 @@ class ExperimentConfig:
         """
         match self.general_conf["qec_property"]:
             case ["logical_error_rate"]:
-                if self._device._backend_class in plaquette.device.local_simulators:
+                if self._device._backend_name in plaquette.device.local_simulators:
                     test_success = np.zeros([self.device_conf.shots], dtype=bool)
                     for i in tqdm(range(self.device_conf.shots)):
                         self._device.run(cast(Circuit, self._circuit))
-- 
2.43.0


From e0447c3f5964cddd8c8b56a1ebcd5f347d0d3b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 28/39] fix: reject non-integer qubit indices given as numbers

---
 src/plaquette/circuit/__init__.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/plaquette/circuit/__init__.py b/src/plaquette/circuit/__init__.py
index 1c6cae3..c75af76 100644
--- a/src/plaquette/circuit/__init__.py
+++ b/src/plaquette/circuit/__init__.py
@@ -23,6 +23,14 @@ from __future__ import annotations
 from typing import Any
 
 
+def _qubit_index(arg: Any) -> int:
+    """Convert a qubit index to an integer, but reject non-integer numbers."""
+    index = int(arg)
+    if not isinstance(arg, str) and index != arg:
+        raise TypeError("Qubit indices must be integers")
+    return index
+
+
 class Circuit:
     """A Clifford circuit.
 
@@ -206,22 +214,22 @@ class Circuit:
             if not 0.0 <= p <= 1.0:
                 raise ValueError("The probability must be within [0.0, 1.0]")
             assert args[1] in self.allowed_gates, f"{args[1]} gate is not supported"
-            args = (p, str(args[1]), *map(int, args[2:]))
+            args = (p, str(args[1]), *map(_qubit_index, args[2:]))
         elif name == "ERROR_CONTINUE":
             assert args[0] in self.allowed_gates, f"{args[0]} gate is not supported"
-            args = (str(args[0]), *map(int, args[1:]))
+            args = (str(args[0]), *map(_qubit_index, args[1:]))
         elif name == "E_ERASE":
             assert len(args) == 2, "Wrong number of arguments to E_ERASE"
-            args = (float(args[0]), int(args[1]))
+            args = (float(args[0]), _qubit_index(args[1]))
         elif name == "E_PAULI":
             assert len(args) == 4, "Wrong number of arguments to E_PAULI"
-            args = (*map(float, args[:3]), int(args[3]))
+            args = (*map(float, args[:3]), _qubit_index(args[3]))
         elif name == "E_PAULI2":
             assert len(args) == 17, "Wrong number of arguments to E_PAULI2"
-            args = (*map(float, args[:15]), *map(int, args[15:]))
+            args = (*map(float, args[:15]), *map(_qubit_index, args[15:]))
         elif name in self.deterministic_gates:
             try:
-                args = tuple(map(int, args))
+                args = tuple(map(_qubit_index, args))
             except ValueError as e:
                 raise TypeError("Qubit indices must be integers") from e
         else:
-- 
2.43.0


From e1d4d341a471d4b294225de7141335c4ed7080da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 29/39] fix: reject CX and CZ gates on an odd number of qubits

---
 src/plaquette/circuit/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plaquette/circuit/__init__.py b/src/plaquette/circuit/__init__.py
index c75af76..87974b7 100644
--- a/src/plaquette/circuit/__init__.py
+++ b/src/plaquette/circuit/__init__.py
@@ -234,6 +234,10 @@ class Circuit:
                 raise TypeError("Qubit indices must be integers") from e
         else:
             raise ValueError(f"Do not know how to handle gate {name!r}")
+        if "CX" in (name, *args[:2]) or "CZ" in (name, *args[:2]):
+            # the gate may be conditional, i.e. follow the instruction's other arguments
+            qubits = [arg for arg in args if isinstance(arg, int)]
+            assert len(qubits) % 2 == 0, "CX and CZ act on pairs of qubits"
         self.gates.append((str(name), args))
 
 
-- 
2.43.0


From e71e63687836bcdf0a58bbeaea187abdb1e38839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 30/39] fix: reset_qubits_to_eigenstate() accepts arrays of
 targets

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index c57965b..c758722 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1266,7 +1266,7 @@ def reset_qubits_to_eigenstate(
 
     state_qubits = count_qubits(state)[0]
 
-    for qubit in targets:
+    for qubit in map(int, targets):
         state, meas_outcome = measure(
             state, single_qubit_pauli_operator(pauli, qubit, state_qubits)
         )
-- 
2.43.0


From 32a1660b2246c6ac9f4edbf855bcbd39284918c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 31/39] fix: keep destabilisers valid in destructive
 measurements

---
 src/plaquette/pauli.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index c758722..8602f6e 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -592,6 +592,13 @@ def _ptrace(state: Tableau, target: int, measured_base: str) -> Tableau:
         )
         state[first_stab], _ = multiply(state[i], state[first_stab])
 
+    # All other destabilisers must commute with the measured operator, because otherwise
+    # they would not commute with each other any more without the target qubit
+    anticommuting = (_z if measured_base == "X" else _x)[:number_of_qubits, target]
+    for i in np.nonzero(anticommuting)[0]:
+        if i != first_stab:
+            state[i], _ = multiply(state[i], state[first_stab])
+
     a = np.delete(state, [first_stab, first_stab + number_of_qubits], axis=0)
     b = np.delete(a, [target, target + number_of_qubits], axis=1)
     state = b  # should have one less qubit
-- 
2.43.0


From c5b7747b444d8bb5444e9f7ccc238a81dd383e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 32/39] fix: update the operators of a code after applying
 fabrication errors

---
 src/plaquette/codes/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 79dcbf0..8e55f62 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -290,6 +290,7 @@ class LatticeCode(StabilizerCode):
         """
         self.lattice._fabrication_error_warning(stacklevel=3)
         self.lattice.apply_fabrication_errors(**params)
+        super().__init__(self.lattice.stabilisers, self.lattice.logical_operators)
 
     @classmethod
     def from_operators(
-- 
2.43.0


From 4ca83841c483a47f0486d8ac2f0718695cac0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 33/39] fix: measure superstabilizers on all of their qubits

---
 src/plaquette/circuit/generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 9766a2e..b88f85c 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -296,7 +296,13 @@ class QECCircuitGenerator:
                 verification are currently performed without errors.)
         """
         time_steps = self.lat.n_time_steps
-        if isinstance(time_steps, int):
+        # Edges of superstabilizers are not part of the parallel schedule
+        scheduled = all(
+            edge.measurement_time_step is not None
+            for op in self.lat.stabgens
+            for edge in op.edges
+        )
+        if isinstance(time_steps, int) and scheduled:
             self.measure_stabgens_pl(with_errors=with_errors)
         else:
             self.measure_stabgens_seq(with_errors=with_errors)
-- 
2.43.0


From 5d9be7891b2260f0643e43a407863e4c4825bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 34/39] fix: operators of vertices without edges are the
 identity

---
 src/plaquette/codes/latticebase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 1aa9182..81dba97 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -532,7 +532,7 @@ class CodeLattice:
                     actual_index += 1
                 # Afterwards, add the actual operator where it was meant to be
                 op_string += operators[qubit_index]
-            ops_as_tableau.append(string_to_pauli(op_string, n_qubits))
+            ops_as_tableau.append(string_to_pauli(op_string or "I", n_qubits))
         return ops_as_tableau
 
     @property
-- 
2.43.0


From 5407d9f920f5d5cd917c1bf3bbe5ee58f92369b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 35/39] fix: keep stabilizers commuting when joining at a
 corner

---
 src/plaquette/codes/latticebase.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 81dba97..bcac692 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -770,6 +770,13 @@ class CodeLattice:
 
         The third stabilizer is kept.
         """
+        edgegroups = tuple(edgegroups)
+        if all(len(edges) == 1 for edges in edgegroups):
+            # There is nothing to join at a corner. Without the qubit, its stabilizers
+            # do not commute any more and only one of them can be kept.
+            for edges in edgegroups[1:]:
+                self.remove_stabilizer(cast(StabGenVertex, edges[0].op))
+            edgegroups = edgegroups[:1]
         for edges in edgegroups:
             if len(edges) == 1:
                 self.remove_edge(edges[0])
-- 
2.43.0


From 46bc137873d4749ed48711a2a6eda82c3acaab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 36/39] fix: read gate tables whose entries are single values

---
 src/plaquette/errors/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 8afece4..bcc85cf 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -184,11 +184,11 @@ def delimited_string_list_to_series(
     data: list[list[str]] | list[list[int]] | list[list[float]]
     match exp_type:
         case "str":
-            data = [(val.split(delimiter)) for val in values]
+            data = [str(val).split(delimiter) for val in values]
         case "int":
-            data = [[int(x) for x in val.split(delimiter)] for val in values]
+            data = [[int(x) for x in str(val).split(delimiter)] for val in values]
         case "float":
-            data = [[float(x) for x in val.split(delimiter)] for val in values]
+            data = [[float(x) for x in str(val).split(delimiter)] for val in values]
         case _:
             raise ValueError(
                 f"{exp_type} is not supported. Use one of int, str or float."
-- 
2.43.0


From f64271554a6b3934b3cec43ddc4f9a4742e4d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:45 +0000
Subject: [PATCH 37/39] fix: room for all operators of a code with many logical
 qubits

---
 src/plaquette/codes/latticebase.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index bcac692..c6f5cce 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -938,7 +938,11 @@ class CodeLatticeFromStab(CodeLattice):
             if def_logical_ops is None:
                 raise TypeError("def_logical_ops is required")
             self.def_logical_ops = def_logical_ops
-        super().__init__((self.n_data_qubits, 3))
+        # one row for each data qubit, stabilizer generator and logical operator
+        n_rows = max(
+            self.n_data_qubits, len(self.def_stabgens), len(self.def_logical_ops)
+        )
+        super().__init__((n_rows, 3))
         for i in range(self.n_data_qubits):
             self.add_data((i, 1))
         for i, stab in enumerate(self.def_stabgens):
-- 
2.43.0


From 52fb66915a9d0f94d7f6d55e54919f50ac2b1485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 38/39] fix: reject the identity as an induced gate error

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 4eef2e9..244a1de 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -797,7 +797,7 @@ class _GateErrorMetadata:
 
     VALID_INDUCED_ERRORS: ClassVar[set[str]] = (
         set(["".join(i) for i in product("XYZI", repeat=2)])
-        .difference("II")
+        .difference(["II"])
         .union(["X", "Y", "Z"])
     )
     """
-- 
2.43.0


From 9d8b73b831154c8da599f6dd4badd4f496d446f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 39/39] fix: no default errors when sampling of errors is
 switched off

---
 src/plaquette/frontend/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 244a1de..292b157 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1415,11 +1415,12 @@ class ErrorsConfig:
         Returns:
             An :class:`~plaquette.errors.ErrorData` object.
         """
-        ed = ErrorData.from_lattice(
-            lattice,
-            self.qubit_errors.simulated_errors,
-            self.gate_errors.simulated_errors,
-        )
+        qubit_errors = self.qubit_errors.simulated_errors
+        gate_errors = self.gate_errors.simulated_errors
+        if qubit_errors is None and gate_errors is None:
+            # no errors are sampled, do not use the default errors instead
+            qubit_errors = ({}, self.qubit_errors.data_path)
+        ed = ErrorData.from_lattice(lattice, qubit_errors, gate_errors)
         return ed
 
     def update(self, **kwargs):
-- 
2.43.0

