From 11a2ee39aa62e49e6a63d13fbb02ec70afd94b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 01/29] fix: raise the ValueError for inconsistent operators
 and labels in OperatorString

---
 qosy/operatorstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 5e6dfa8..d86a735 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -123,7 +123,7 @@ class OperatorString:
         self.op_type           = op_type
 
         if len(self.orbital_operators) != len(self.orbital_labels):
-            ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
+            raise ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
 
         self.prefactor = prefactor
 
-- 
2.43.0


From 188d8f545202e3ae63850abfb27eb90351f26793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 02/29] fix: compare the prefactor of operator strings and hash
 equal prefactors equally

---
 qosy/operatorstring.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index d86a735..7ec382d 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -125,7 +125,13 @@ class OperatorString:
         if len(self.orbital_operators) != len(self.orbital_labels):
             raise ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
 
+        # Represent equal prefactors identically (1, 1.0, and 1+0j are
+        # the same prefactor), so that equal strings have equal names.
         self.prefactor = prefactor
+        if self.prefactor == 1:
+            self.prefactor = 1.0
+        elif self.prefactor == 1j:
+            self.prefactor = 1j
 
         # Stored for use in computing commutators.
         # A dictionary of the labels to their index in the operator string.
@@ -209,7 +215,7 @@ class OperatorString:
             >>> op_string1 == op_string3 # True
         """
         
-        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type)
+        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type) and (self.prefactor == other.prefactor)
         
         return equals
 
-- 
2.43.0


From e4b672ce5162d26243582aec356dbb328139528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 03/29] fix: reject unknown op_type and foreign letters in
 OperatorString

---
 qosy/operatorstring.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 7ec382d..cae9063 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -125,6 +125,19 @@ class OperatorString:
         if len(self.orbital_operators) != len(self.orbital_labels):
             raise ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
 
+        if self.op_type == 'Pauli':
+            valid_operators = PAULI_OPS
+        elif self.op_type == 'Majorana':
+            valid_operators = MAJORANA_OPS
+        elif self.op_type == 'Fermion':
+            valid_operators = FERMION_OPS
+        else:
+            raise ValueError('Invalid op_type for OperatorString: {}'.format(self.op_type))
+
+        for orbital_operator in self.orbital_operators:
+            if orbital_operator not in valid_operators:
+                raise ValueError('Invalid operator {} in OperatorString of op_type {}'.format(orbital_operator, self.op_type))
+
         # Represent equal prefactors identically (1, 1.0, and 1+0j are
         # the same prefactor), so that equal strings have equal names.
         self.prefactor = prefactor
-- 
2.43.0


From 3f0b8d1d1b210ebbd8645adb8bce95410bb8fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 04/29] fix: reject mixed op_types and unknown operation modes
 in string algebra

---
 qosy/algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 3368686..621ab62 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -27,6 +27,10 @@ def _operation_opstring(op_string_A, op_string_B, operation_mode='commutator', t
     op_type = op_string_A.op_type
     if not (op_type == 'Pauli' or op_type == 'Majorana'):
         raise NotImplementedError('Unsupported commutator between operator strings of type: {}'.format(op_type))
+    if op_string_B.op_type != op_type:
+        raise ValueError('Cannot perform algebraic operation {} between OperatorStrings of types {} and {}.'.format(operation_mode, op_type, op_string_B.op_type))
+    if operation_mode not in ('product', 'commutator', 'anticommutator'):
+        raise ValueError('Unknown operation_mode: {}'.format(operation_mode))
 
     if operation_mode == 'product' \
        and (op_type == 'Pauli' or op_type == 'Majorana') \
-- 
2.43.0


From 5db4a30b27ff2f92a7f07fa360c6a8d4a2c3fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 05/29] fix: use the result of remove_zeros, which returns a
 new Operator

---
 qosy/algebra.py | 2 +-
 qosy/core.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 621ab62..251101f 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -623,7 +623,7 @@ def generate_lie_algebra(operators, tol=1e-12):
 
                 # Normalize the new operator.
                 if opC.norm() > tol:
-                    opC.remove_zeros(tol=tol)
+                    opC = opC.remove_zeros(tol=tol)
                     opC.normalize()
                 # Ignore commuting operators.
                 else:
diff --git a/qosy/core.py b/qosy/core.py
index 7543236..285cb69 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -515,7 +515,7 @@ class SymmetricOperatorGenerator:
                         if np.abs(coeff) > tol:
                             proj_op += coeff * basis[ind_basis]
 
-                    proj_op.remove_zeros()
+                    proj_op = proj_op.remove_zeros()
                     proj_op.normalize()
                 else:
                     raise ValueError('Invalid basis of type: {}'.format(type(basis)))        
-- 
2.43.0


From 39905b83670d279a09d6b414e0eacfa5dd9ec671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 06/29] fix: honour include_identity in distance_basis

---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index 25867a1..f44c586 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -951,6 +951,6 @@ def distance_basis(lattice, k, R, op_type, allowed_orbitals=None, include_identi
     
     total_basis = Basis()
     for cluster_labels in sorted_clusters:
-        total_basis += cluster_basis(k, cluster_labels, op_type)
+        total_basis += cluster_basis(k, cluster_labels, op_type, include_identity=include_identity)
         
     return total_basis
-- 
2.43.0


From ab840663e53e952ea7d969535b1de0a3215192da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 07/29] fix: build commutant matrices of the selected-CI
 routines from the explored Liouvillian

---
 qosy/algorithms.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 7e324fd..87df4e2 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -15,7 +15,7 @@ import scipy.sparse.linalg as ssla
 from .tools import intersection, gram_schmidt, sparsify
 from .operatorstring import opstring
 from .basis import Basis, Operator
-from .algebra import commutator, commutant_matrix, structure_constants, product, anticommutator
+from .algebra import commutator, commutant_matrix, liouvillian_matrix, structure_constants, product, anticommutator
 from .transformation import symmetry_matrix
     
 def _truncate_basis(basis, vector, threshold=1e-6, max_basis_size=100, filter_fun=None):
@@ -298,8 +298,8 @@ def selected_ci(initial_operator, H, num_steps, threshold=1e-6, max_basis_size=1
         print('Expanded basis: {}'.format(len(basis)))
 
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = l_matrix.H.dot(l_matrix).real
         
         if len(basis) < 2*max_num_evecs:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
@@ -436,8 +436,8 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
             print('  Expanded basis: {}'.format(len(basis)))
 
             # Find best operator in basis
-            (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-            com_matrix = _com_matrix(s_constants, H).real
+            (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+            com_matrix = l_matrix.H.dot(l_matrix).real
 
             orig_com_matrix = com_matrix.copy()
             
@@ -577,9 +577,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             operator = operators[-1]
         
         # O -> [H,O]
-        (s_constants1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        (l_matrix1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
-        l_matrix1    = _l_matrix(s_constants1, H)
         com_H_operator = l_matrix1.dot(ss.csr_matrix(operator.coeffs).T)
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
@@ -587,9 +586,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
-            (s_constants2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+            (l_matrix2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
-            l_matrix2 = _l_matrix(s_constants2, H)
 
             #A = ss.csr_matrix(([1.0], ([0], [0])), shape=(1,1), dtype=complex)
             com_H_A = l_matrix2.toarray()[:,0]
@@ -622,8 +620,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             previous_basis = copy.deepcopy(basis)
             
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = l_matrix.H.dot(l_matrix).real
         
         if len(basis) < 20:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
-- 
2.43.0


From 760237f739ce7c9eed7f8633a3e8699cd10223eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 08/29] fix: undefined name and missing argument in to_operator

---
 qosy/diagonalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index ad7b458..c0cd046 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -106,9 +106,9 @@ def to_vector(matrix, basis, num_orbitals):
     
 # TODO: document, test
 def to_operator(matrix, basis, num_orbitals):
-    coeffs = to_vector(matrix, basis)
+    coeffs = to_vector(matrix, basis, num_orbitals)
 
-    op = qy.Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
+    op = Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
 
     return op
 
-- 
2.43.0


From c9301998ff09c19143b265aa484464d29c13907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 09/29] fix: undefined names in unfinished code paths that
 should raise NotImplementedError

---
 qosy/diagonalization.py | 10 ----------
 qosy/tools.py           |  3 ---
 2 files changed, 13 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index c0cd046..57426a3 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -299,16 +299,6 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     # and the lattice is periodic.
     if lattice is not None:
         # TODO: finish
-        momenta_dim = []
-        for ind_dim in range(lattice.dim):
-            if lattice.periodic_boundaries[ind_dim]:
-                L_dim = lattice.num_cells[ind_dim]
-                #momenta = 2.0*np.pi/L_dim * np.arange(L_dim)
-
-                momenta_dim.append(momenta)
-            else:
-                momenta_dim.append(list())
-        
         raise NotImplementedError('Fourier transformed lattice diagonalization is unsupported.')
 
     # Calculate the 2x2 block (Schur) decomposition of A = Z T Z^H,
diff --git a/qosy/tools.py b/qosy/tools.py
index 22d9a82..17dbaa1 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -598,9 +598,6 @@ def project_out_nullspace(matrix, tol=1e-14):
     n = int(matrix.shape[0])
     m = int(matrix.shape[1])
     
-    assert(m == len(inds_basisA))
-    assert(n == len(inds_basisB))
-    
     (left_svecs, svals, right_svecsH) = nla.svd(matrix)
 
     inds_zero_svals = np.where(np.abs(svals) < tol)[0]
-- 
2.43.0


From c635e6dd4b04d4d5511e9c34da7d673101afdf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 10/29] fix: conversions with no surviving terms return an
 empty Operator of the requested type

---
 qosy/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index b0eed54..39edc4e 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -204,7 +204,7 @@ def _convert_majorana_string(op_string, include_identity=False):
         else:
             raise ValueError('Invalid lex_order = {} and coeff = {}'.format(lex_order, coeff))
 
-    return Operator(np.array(coeffs_fermion), op_strings_fermion)
+    return Operator(np.array(coeffs_fermion), op_strings_fermion, op_type='Fermion')
 
 
 def _convert_fermion_string(op_string, include_identity=False):
@@ -307,7 +307,7 @@ def _convert_fermion_string(op_string, include_identity=False):
         coeffs_majorana.append(coeffM)
         op_strings_majorana.append(op_string_M)
 
-    return Operator(np.array(coeffs_majorana), op_strings_majorana)
+    return Operator(np.array(coeffs_majorana), op_strings_majorana, op_type='Majorana')
 
 def _convert_operator_string(op_string, to_op_type, include_identity=False):
     # Converts an OperatorString to a linear combination of
-- 
2.43.0


From 2a4034f01fcfbd6415256189d497557df1ac7fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 11/29] fix: truncated or filtered operators that become empty
 keep their op_type

---
 qosy/algorithms.py | 2 +-
 qosy/core.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 87df4e2..ae2c749 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -42,7 +42,7 @@ def _truncate_operator(operator, threshold=1e-6, max_basis_size=100, filter_fun=
     truncated_basis = _truncate_basis(operator._basis, operator.coeffs, threshold=threshold, max_basis_size=max_basis_size, filter_fun=filter_fun)
 
     coeffs = [operator.coeffs[operator._basis.index(os)] for os in truncated_basis]
-    result = Operator(coeffs, truncated_basis.op_strings)
+    result = Operator(coeffs, truncated_basis.op_strings, op_type=operator.op_type)
     return result
 
 def _l_matrix(s_constants, operator):
diff --git a/qosy/core.py b/qosy/core.py
index 285cb69..afba51c 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -505,7 +505,7 @@ class SymmetricOperatorGenerator:
                         if np.abs(coeff) > tol:
                             coeffs.append(coeff)
                             op_strings.append(basis[ind_basis])
-                    proj_op = Operator(coeffs, op_strings)
+                    proj_op = Operator(coeffs, op_strings, op_type=basis[0].op_type)
                 elif isinstance(basis, list) and isinstance(basis[0], Operator):
                     # Zero operator
                     proj_op = Operator([], [], basis[0].op_type)
-- 
2.43.0


From 61feca81d8ac364c7aa7fc92843121750a65fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 12/29] fix: accept numpy integers as orbital indices in
 Lattice.distance

---
 qosy/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 684ef53..0336f74 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -200,12 +200,12 @@ class Lattice:
         boundaries to be computed correctly.
         """
 
-        if type(position1) is int:
+        if isinstance(position1, (int, np.integer)):
             (pos1, _, _) = self._orbitals[position1]
         else:
             pos1 = position1
             
-        if type(position2) is int:
+        if isinstance(position2, (int, np.integer)):
             (pos2, _, _) = self._orbitals[position2]
         else:
             pos2 = position2
-- 
2.43.0


From 98ef96423a9e7d1395c201b42932ebc818a4fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 13/29] fix: pair eigenvector entries with the basis they were
 computed in after truncation

---
 qosy/algorithms.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index ae2c749..6961beb 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1017,13 +1017,14 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             best_com_norm = com_norm
         
         # Truncate basis
-        basis = _truncate_basis(basis, evecs[:,0], threshold=threshold, max_basis_size=max_basis_sizes_arr[step])
+        expanded_basis = basis
+        basis = _truncate_basis(expanded_basis, evecs[:,0], threshold=threshold, max_basis_size=max_basis_sizes_arr[step])
         if verbose:
             print('  Truncated basis: {}'.format(len(basis)))
 
         # Truncate the operator into the new basis
-        new_coeffs = [vector[basis.index(os)] for os in basis]
-        operator = Operator(new_coeffs, basis.op_strings)
+        new_coeffs = [vector[expanded_basis.index(os)] for os in basis]
+        operator = Operator(new_coeffs, basis.op_strings, op_type=operator.op_type)
 
         # Stop early if reached the target commutator norm threshold.
         if target_com_norm is not None and (best_com_norm < target_com_norm):
@@ -1254,15 +1255,16 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         for ind_vec in range(num_ops):
             random_sum_vec += (2.0*np.random.rand()-1.0) * evecs[:,ind_vec]
         random_sum_vec /= nla.norm(random_sum_vec)    
-        basis = _truncate_basis(basis, random_sum_vec, threshold=threshold, max_basis_size=max_basis_size)
+        expanded_basis = basis
+        basis = _truncate_basis(expanded_basis, random_sum_vec, threshold=threshold, max_basis_size=max_basis_size)
         if verbose:
             print('  Truncated basis: {}'.format(len(basis)))
 
         # Truncate the operator into the new basis
         current_operators = []
         for ind_vec in range(num_ops):
-            new_coeffs = [evecs[basis.index(os),ind_vec] for os in basis]
-            new_op     = Operator(new_coeffs, basis.op_strings)
+            new_coeffs = [evecs[expanded_basis.index(os),ind_vec] for os in basis]
+            new_op     = Operator(new_coeffs, basis.op_strings, op_type=H.op_type)
             current_operators.append(new_op)
         
     return (operators, com_norms)
-- 
2.43.0


From 2c4711b487122fe2c266241d721716d3997b3e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 14/29] fix: use the per-step basis size when truncating in
 selected_ci_greedy_many_ops

---
 qosy/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 6961beb..bda4c27 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1098,7 +1098,7 @@ def selected_ci_greedy_many_ops(initial_operators, H, num_steps, num_H_terms=10,
 
             # Truncate the operator.
             if step > 0:
-                current_op = _truncate_operator(current_op, threshold=threshold, max_basis_size=max_basis_size)
+                current_op = _truncate_operator(current_op, threshold=threshold, max_basis_size=max_basis_sizes[step])
 
             com_ops = H
             #com_ops = [H] + [current_operators[ind_op2] for ind_op2 in range(num_operators) if ind_op2 != ind_op]
-- 
2.43.0


From cb48cc41d6cce331639576d85224889f6d1d444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 15/29] fix: stop retrying for a target fidelity once all
 eigenvectors were used

---
 qosy/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index bda4c27..468b223 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -964,9 +964,9 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             (vector, com_norm, fidelity) = highest_fidelity_operator(target_op, evecs, evals, basis)
             
             if target_fidelity is not None and (fidelity < target_fidelity):
-                # If it fails on the first step, it likely
-                # will keep failing.
-                if step == 0:
+                # If it fails on the first step or after using
+                # all eigenvectors, it will keep failing.
+                if step == 0 or num_vecs >= len(basis):
                     # End early.
                     end_early = True
                     if verbose:
-- 
2.43.0


From e152c47c0e4c91541c4eb440329ff48fd86fc17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 16/29] fix: print only when verbose is set

---
 qosy/algorithms.py | 11 ++++++-----
 qosy/core.py       |  6 ++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 468b223..f8a375b 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -655,7 +655,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
 # operator O, which is a linear combination of the given
 # eigenvectors of the commutant matrix, with the highest
 # overlap with target_operator.
-def highest_fidelity_operator(target_operator, evecs, evals, basis):
+def highest_fidelity_operator(target_operator, evecs, evals, basis, verbose=True):
 
     # The target_operator projected into the given basis.
     target_op_vector = np.zeros(len(basis), dtype=complex)
@@ -688,9 +688,10 @@ def highest_fidelity_operator(target_operator, evecs, evals, basis):
 
     fidelity = norm_vector**2.0
 
-    print('  (Overlaps  = {})'.format(overlaps))
-    print('  (Com norms = {})'.format(evals))
-    print('  (Fidelity  = {})'.format(fidelity))
+    if verbose:
+        print('  (Overlaps  = {})'.format(overlaps))
+        print('  (Com norms = {})'.format(evals))
+        print('  (Fidelity  = {})'.format(fidelity))
     
     return (vector, com_norm, fidelity)
 
@@ -961,7 +962,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             # and returns its vector representation and its
             # commutator norm with the Hamiltonian |[H, O]|^2,
             # even though it is not an eigenstate of the commutant matrix.
-            (vector, com_norm, fidelity) = highest_fidelity_operator(target_op, evecs, evals, basis)
+            (vector, com_norm, fidelity) = highest_fidelity_operator(target_op, evecs, evals, basis, verbose=verbose)
             
             if target_fidelity is not None and (fidelity < target_fidelity):
                 # If it fails on the first step or after using
diff --git a/qosy/core.py b/qosy/core.py
index afba51c..4bc5a11 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -409,7 +409,8 @@ class SymmetricOperatorGenerator:
             for ind_output in range(num_inputs):
                 curr_ops = self.projected_output_operators[ind_output]
                 self.projected_output_operators[ind_output] = sparsify(curr_ops)
-                print(' ({}) Sparsified a vector space of dim {}'.format(ind_output+1, int(curr_ops.shape[1])))
+                if verbose:
+                    print(' ({}) Sparsified a vector space of dim {}'.format(ind_output+1, int(curr_ops.shape[1])))
         
         if orthogonalization:
             if verbose:
@@ -456,7 +457,8 @@ class SymmetricOperatorGenerator:
                 basis = self.projected_output_operators[-1]
 
             if len(basis) == 0:
-                print(' SKIPPING SYMMETRY {}'.format(ind_input+1))
+                if verbose:
+                    print(' SKIPPING SYMMETRY {}'.format(ind_input+1))
                 continue
                 
             input_symmetry = self.input_symmetries[ind_input]
-- 
2.43.0


From e1533475530ec2a6f287ba3ac39bdfc5ec71c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 17/29] fix: explore cached basis strings with the strings of
 every operator

---
 qosy/algorithms.py | 58 +++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index f8a375b..dd657f0 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -124,36 +124,40 @@ def _explore(basis, H, explored_basis, explored_extended_basis, explored_s_const
     # the given Basis. Update the explored_basis, explored_extended_basis,
     # and explored_s_constants variables as you go.
 
-    # First, find the part of basis that is unexplored.
+    # First, find the parts of the basis and of H that are unexplored.
     unexplored_basis = Basis([os for os in basis if os not in explored_basis])
+    unexplored_H     = Basis([os for os in H._basis if os not in explored_s_constants_data])
+    explored_H       = Basis(list(explored_s_constants_data))
+
+    # Then explore those parts, so that every OperatorString of H
+    # is explored with every OperatorString in explored_basis.
+    for (new_basis, H_basis) in [(Basis(list(explored_basis)), unexplored_H), (unexplored_basis, explored_H + unexplored_H)]:
+        (unexplored_s_constants_data, unexplored_extended_basis) = structure_constants(new_basis, H_basis, return_extended_basis=True, return_data_tuple=True)
+
+        # Update the explored Bases.
+        explored_basis          += new_basis
+        explored_extended_basis += unexplored_extended_basis
+
+        # Update the explored structure constants data.
+        for os in H_basis:
+            # The new information found from exploring.
+            row_inds_unexplored = [explored_extended_basis.index(unexplored_extended_basis.op_strings[ind_eb_os]) for ind_eb_os in unexplored_s_constants_data[os][0]]
+            col_inds_unexplored = [explored_basis.index(new_basis.op_strings[ind_b_os]) for ind_b_os in unexplored_s_constants_data[os][1]]
+            data_unexplored     = unexplored_s_constants_data[os][2]
+
+            # The old information from previous exploration.
+            if os in explored_s_constants_data:
+                old_row_inds = explored_s_constants_data[os][0]
+                old_col_inds = explored_s_constants_data[os][1]
+                old_data     = explored_s_constants_data[os][2]
+            else:
+                old_row_inds = []
+                old_col_inds = []
+                old_data     = []
 
-    # Then explore that part.
-    (unexplored_s_constants_data, unexplored_extended_basis) = structure_constants(unexplored_basis, H._basis, return_extended_basis=True, return_data_tuple=True)
-
-    # Update the explored Bases.
-    explored_basis          += unexplored_basis
-    explored_extended_basis += unexplored_extended_basis
+            # The update
+            explored_s_constants_data[os] = (old_row_inds + row_inds_unexplored, old_col_inds + col_inds_unexplored, old_data + data_unexplored)
 
-    # Update the explored structure constants data.
-    for (coeff, os) in H:
-        # The new information found from exploring.
-        row_inds_unexplored = [explored_extended_basis.index(unexplored_extended_basis.op_strings[ind_eb_os]) for ind_eb_os in unexplored_s_constants_data[os][0]]
-        col_inds_unexplored = [explored_basis.index(unexplored_basis.op_strings[ind_b_os]) for ind_b_os in unexplored_s_constants_data[os][1]]
-        data_unexplored     = unexplored_s_constants_data[os][2]
-
-        # The old information from previous exploration.
-        if os in explored_s_constants_data:
-            old_row_inds = explored_s_constants_data[os][0]
-            old_col_inds = explored_s_constants_data[os][1]
-            old_data     = explored_s_constants_data[os][2]
-        else:
-            old_row_inds = []
-            old_col_inds = []
-            old_data     = []
-            
-        # The update
-        explored_s_constants_data[os] = (old_row_inds + row_inds_unexplored, old_col_inds + col_inds_unexplored, old_data + data_unexplored)
-    
     # From the collected information, find the
     # extended_basis corresponding to basis.
     inds_basis_to_x = [explored_basis.index(os) for os in basis]
-- 
2.43.0


From ad079a90fffdcdb5e1fbd5780c81844646fcb1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 18/29] fix: Operator rejects unknown op_types and op_strings
 of different op_types

---
 qosy/basis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qosy/basis.py b/qosy/basis.py
index f44c586..acb776c 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -339,6 +339,10 @@ class Operator:
 
         if len(self._basis.op_strings) != 0:
             self.op_type = self._basis.op_strings[0].op_type
+            if any(op_string.op_type != self.op_type for op_string in self._basis.op_strings):
+                raise ValueError('Cannot create an operator from op_strings of different op_types.')
+        elif op_type is not None and op_type not in ('Pauli', 'Majorana', 'Fermion'):
+            raise ValueError('Cannot create an operator of type: {}.'.format(op_type))
         elif len(self._basis.op_strings) == 0 and op_type is None:
             raise ValueError('Cannot create an empty (zero) operator without specifying the op_type.')
 
-- 
2.43.0


From 2fbb69b2c4da9a534b20b741a36d88efd9ab575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 19/29] fix: symmetrize_basis closes the symmetry group instead
 of stopping after one pass

---
 qosy/symmetrization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 35adf6a..a3e4b4e 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -65,7 +65,7 @@ def symmetrize_basis(basis, group_generators, tol=1e-12):
     newG_set = set([tuple(g.info) for g in newG])
     
     while len(newG) != len(G):
-        G = newG
+        G = list(newG)
         G_set = newG_set
         
         # Generate new group elements
-- 
2.43.0


From b72df3ed9ec19e99a0a8b666389a293e7395ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 20/29] fix: symmetrize_lattice keeps the group elements found
 so far while closing the point group

---
 qosy/symmetrization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index a3e4b4e..07b400c 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -254,7 +254,7 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
         G = newG
         
         # Generate new group elements, potentially with duplicates
-        newG = [np.dot(g,gen) for g in G for gen in point_group_generators]
+        newG = G + [np.dot(g,gen) for g in G for gen in point_group_generators]
         # Remove the duplicates
         newG = remove_duplicates(newG)
 
-- 
2.43.0


From 9df9ba327c7409ffc034067f11b8afe029be4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 21/29] fix: warn about a negative imaginary weight in
 plot_opstring

---
 qosy/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 41838fd..0176ff6 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -414,7 +414,7 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
         
     max_width = 3.0
     
-    if np.imag(weight) > 1e-10:
+    if np.abs(np.imag(weight)) > 1e-10:
         warnings.warn('Cannot plot an operator string with an imaginary coefficient. Taking real part.')
     
     weight = np.real(weight)
-- 
2.43.0


From 261ba6552a7e48a650df17f323566e68901d1c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 22/29] fix: use the Hamiltonian's operator type for the
 identity in selected_ci_sweep

---
 qosy/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index dd657f0..45b0f38 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -412,7 +412,7 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
             # basis to help make the operator more unitary,
             # by cancelling the parts that don't square to I.
             if len(operators) > 0 and expand_unitary is not None:
-                identity = Operator([1.0], [opstring('I', 'Pauli')])
+                identity = Operator([1.0], [opstring('I', H.op_type)])
                 op = _truncate_operator(operators[-1], max_basis_size=expand_unitary)
                 op_squared = product(op, op)
                 non_unitary_part = op_squared - identity
-- 
2.43.0


From 7024ba998c18bf209e967eddbc92610bc0c49c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 23/29] fix: symmetrize_basis counts every group element once
 when generators repeat or contain the identity

---
 qosy/symmetrization.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 07b400c..cb0c699 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -61,8 +61,13 @@ def symmetrize_basis(basis, group_generators, tol=1e-12):
     I = label_permutation(np.arange(num_orbitals)) # Identity transformation
     G = [I]
     G_set = set(G)
-    newG = G + group_generators
-    newG_set = set([tuple(g.info) for g in newG])
+    newG = list(G)
+    newG_set = set([tuple(I.info)])
+    for gen in group_generators:
+        # Collect every group element once, even if generators repeat.
+        if tuple(gen.info) not in newG_set:
+            newG_set.add(tuple(gen.info))
+            newG.append(gen)
     
     while len(newG) != len(G):
         G = list(newG)
-- 
2.43.0


From a500fa381376448545fc1e9cae23a3434ca82438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:29 +0000
Subject: [PATCH 24/29] fix: symmetrize_lattice closes the point group also
 when generators repeat or contain the identity

---
 qosy/symmetrization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index cb0c699..1724366 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -254,7 +254,7 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
 
     # Construct the point group G from its generators.
     G = [np.eye(dim)]
-    newG = G + point_group_generators
+    newG = remove_duplicates(G + point_group_generators)
     while len(newG) != len(G):
         G = newG
         
-- 
2.43.0


From 1a7a4989f198288faf4eeb3c8ef2a3b2247fc81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:30 +0000
Subject: [PATCH 25/29] fix: symmetrize_lattice keeps the atoms of every
 direction it expands the cell in

---
 qosy/symmetrization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 1724366..983bd03 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -275,11 +275,12 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
     for ind_expansion in range(num_expansions):
         # Expand the lattice in the direction of each
         # lattice vector.
+        new_lattice = old_lattice
         for ind_lv in range(len(orig_lattice_vectors)):
             delta = orig_lattice_vectors[ind_lv]
 
             # Expand the lattice in the direction of delta.
-            new_lattice = _expand_lattice(old_lattice, ind_lv, delta)
+            new_lattice = _expand_lattice(new_lattice, ind_lv, delta)
         
         # Symmetrize the atom positions for the new
         # unit cell.
-- 
2.43.0


From b5fb0cb6f115ddb134750303a3360de3dad39737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 26/29] fix: symmetrize_lattice recognises duplicate atoms that
 lie more than one cell apart

---
 qosy/symmetrization.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 983bd03..047eb47 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -186,13 +186,21 @@ def _remove_duplicate_atoms(lattice, tol=1e-12):
 
     sym_atom_info = list(zip(lattice.unit_cell.atom_positions, lattice.unit_cell.atom_orbitals))
 
+    # Move a position into the unit cell along the periodic
+    # directions, as needed by lattice.distance().
+    basis_vectors = np.array(lattice.unit_cell.lattice_vectors).T
+    periodic      = lattice.periodic_boundaries
+    def _wrap(pos):
+        num_cells = np.floor(nla.solve(basis_vectors, pos) + tol)
+        return pos - basis_vectors.dot(num_cells * periodic)
+
     # Function for comparing equality of atoms.
     # Compares their positions and orbitals in
     # the lattice.
     def _equiv(infoA, infoB):
         (posA, orbsA) = infoA
         (posB, orbsB) = infoB
-        return lattice.distance(posA, posB) < tol and orbsA == orbsB
+        return lattice.distance(_wrap(posA), _wrap(posB)) < tol and orbsA == orbsB
 
     # Remove duplicate atoms.
     sym_atom_info = remove_duplicates(sym_atom_info, equiv=_equiv)
-- 
2.43.0


From a132c2318dc325a253cc01ca61883d895d875797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:07 +0000
Subject: [PATCH 27/29] fix: bound the number of vectors of the projected
 eigenproblem in noncumulative generation

The projected superoperator has at most as many rows as vectors were found
for the symmetry, so asking eigsh for num_vecs of them always raised
TypeError.  Use the dense solver when the matrix is that small.
---
 qosy/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/core.py b/qosy/core.py
index 4bc5a11..d8a89d5 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -383,7 +383,7 @@ class SymmetricOperatorGenerator:
                 self.projected_superoperators.append(projected_superoperator)
                 
                 # Compute the projected superoperator's eigenvalues and eigenvectors.
-                if self.num_vecs[ind_output] is not None:
+                if self.num_vecs[ind_output] is not None and self.num_vecs[ind_output] < projected_superoperator.shape[0] - 1:
                     # Using scipy.sparse.linalg.eigsh
                     sigma = -1e-6
                     (evalsPSO, evecsPSO) = ssla.eigsh(projected_superoperator, k=self.num_vecs[ind_output], sigma=sigma)
-- 
2.43.0


From e043ec5a360fb686b7f848cbc6f38cea21d8ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:13 +0000
Subject: [PATCH 28/29] fix: place the four blocks of the fermionic mode
 vectors where they do not overwrite each other

---
 qosy/diagonalization.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 57426a3..5018d4d 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -330,23 +330,23 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     eigvecs_Fermion = np.zeros((2*N,2*N), dtype=complex)
     for m in range(N):
         for n in range(N):
-            # The \bar{c_m} vectors
-            # \bar{c}_m = \sum_n a_n c_n + ...
+            # The \bar{c}_n vectors
+            # \bar{c}_n = \sum_m a_m c_m + ...
             eigvecs_Fermion[m,n] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
                                           -1j*Z[2*m+1,2*n] +    Z[2*m+1,2*n+1])
 
-            # \bar{c}_m = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[m,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                              +1j*Z[2*m+1,2*n]    - Z[2*m+1,2*n+1])
+            # \bar{c}_n = ... + \sum_m b_m c_m^\dagger
+            eigvecs_Fermion[N+m,n] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
+                                            +1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
             
-            # The \bar{c_m}^\dagger vectors
-            # \bar{c}_m^\dagger = \sum_n a_n c_n + ...
-            eigvecs_Fermion[2*m+1,n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
-                                              -1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
-
-            # \bar{c}_m^\dagger = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[2*m+1,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                                  -1j*Z[2*m+1,2*n]    + Z[2*m+1,2*n+1])
+            # The \bar{c}_n^\dagger vectors
+            # \bar{c}_n^\dagger = \sum_m b_m^* c_m + ...
+            eigvecs_Fermion[m,N+n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
+                                            -1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
+
+            # \bar{c}_n^\dagger = ... + \sum_m a_m^* c_m^\dagger
+            eigvecs_Fermion[N+m,N+n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
+                                              +1j*Z[2*m+1,2*n] +    Z[2*m+1,2*n+1])
             
     # The ground state energy
     constant_shift = -0.5*np.sum(eigvals)
-- 
2.43.0


From c40192639a2cfdbf70a45a1a9a9d618fbdbe0f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:50 +0000
Subject: [PATCH 29/29] fix: conversion_matrix of an empty basis called
 csr_matrix without its argument

---
 qosy/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index 39edc4e..f61c5aa 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -469,7 +469,7 @@ def conversion_matrix(basis_from, basis_to, tol=1e-16):
         warnings.warn('Creating a non-invertible transformation matrix between bases of different sizes: {} {}'.format(len(basis_from), len(basis_to)))
 
     if len(basis_from) == 0:
-        return ss.csr_matrix(dtype=complex,shape=(0,0))
+        return ss.csr_matrix((len(basis_to), 0), dtype=complex)
     
     to_op_type = basis_to.op_strings[0].op_type
     
-- 
2.43.0

