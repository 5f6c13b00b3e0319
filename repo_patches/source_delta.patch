From 5cdec939c9cc1dd2b396119c58050cf8996b57b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 01/40] fix: equal PointGroupElements with exact and float
 rotations hash equally

---
 qsymm/groups.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 34eafd1..e595a32 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -216,12 +216,14 @@ class PointGroupElement:
             return Rs < Ro
 
     def __hash__(self):
-        # U is not hashed, if R is floating point it is also not hashed
+        # U is not hashed. R is only hashed if it is an integer array: a floating
+        # point R is compared with a tolerance, and an exact R may also be equal
+        # to a floating point one.
         R, c, a = self.R, self.conjugate, self.antisymmetry
-        if isinstance(R, ta.ndarray_float):
-            return hash((c, a))
-        else:
+        if isinstance(R, ta.ndarray_int):
             return hash((R, c, a))
+        else:
+            return hash((c, a))
 
     def __mul__(self, g2):
         g1 = self
-- 
2.43.0


From c604a2f7a82e304a05d71669ca21297df2a14385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 02/40] fix: store new Model keys in standard form, so
 constants added to a Model stay symbolic

---
 qsymm/model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index fdb6b1d..37cd030 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -265,6 +265,9 @@ class Model(UserDict):
 
     # Make sure values have the correct format
     def __setitem__(self, key, item):
+        # New keys are stored in standard form, same as in '__init__'
+        if key not in self.data:
+            key = self._normalize_key(key)
         if (isinstance(item, self.format) and self.shape == item.shape):
             self.data[key] = item
         elif (isinstance(item, Number) and self.shape == ()):
@@ -282,6 +285,9 @@ class Model(UserDict):
         else:
             return self.__missing__(key)
 
+    def _normalize_key(self, key):
+        return _symbol_normalizer(key)
+
     # Defaultdict functionality
     def __missing__(self, key):
         if self.format is np.complex128:
@@ -835,6 +841,11 @@ class BlochModel(Model):
         else:
             return self.__missing__(key)
 
+    def _normalize_key(self, key):
+        if isinstance(key, BlochCoeff):
+            return key
+        return _bloch_normalizer(key, self.momenta)
+
     def transform_symbolic(self, func):
         raise NotImplementedError('`transform_symbolic` is not implemented for `BlochModel`')
 
-- 
2.43.0


From f495c686c45b942d51020e6b703c88d3048c3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 03/40] fix: adding a complex constant to a Model with a real
 constant term

---
 qsymm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 37cd030..97c1062 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -336,7 +336,7 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[1] += other
+            result[1] = result[1] + other
         else:
             raise NotImplementedError('Addition of {} with shape {} with {} not supported'.format(type(self), self.shape, type(other)))
         return result
@@ -351,7 +351,7 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[1] += other
+            result[1] = result[1] + other
         else:
             raise NotImplementedError('Addition of {} with {} not supported'.format(type(self), type(other)))
         return result
-- 
2.43.0


From 503930fd0f55dbda1191910b3d47d60d2e2f1d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 04/40] fix: allclose compares sparse matrices without stored
 entries by value

---
 qsymm/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index f4a125e..988cf6a 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -47,8 +47,9 @@ def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
     elif isinstance(b, sla.LinearOperator):
         b = b @ np.eye(a.shape[-1], dtype=complex)
 
-    # Check if empty arrays, only compare shape
-    if a.size == 0:
+    # Check if empty arrays, only compare shape. Do not use 'size', for sparse
+    # matrices it is the number of stored entries.
+    if 0 in a.shape:
         return a.shape == b.shape
     atol = atol + rtol * max(np.max(np.abs(a)), np.max(np.abs(b)))
     diff = a - b
-- 
2.43.0


From f8266ac2b0b8200b4729b11655cc5cc204195ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 05/40] fix: Model.eliminate_zeros uses the Frobenius norm for
 sparse matrices too

---
 qsymm/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 97c1062..da7ce97 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -724,6 +724,8 @@ class Model(UserDict):
             return result
         # Write it explicitely so it works with sparse arrays
         def norm(mat):
+            if isinstance(mat, scipy.sparse.spmatrix):
+                mat = mat.tocsr().data
             return np.sqrt(np.sum(np.abs(mat)**2))
         max_norm = np.max([norm(val) for val in self.values()])
         tol = max(atol, max_norm * rtol)
-- 
2.43.0


From 4160c8c3ad4572204e87ce76fe489b5c6e40f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 06/40] fix: allclose supports all sparse matrix formats

---
 qsymm/linalg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 988cf6a..eee80e3 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -42,10 +42,15 @@ def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
         a = np.asarray(a)
     elif isinstance(a, sla.LinearOperator):
         a = a @ np.eye(a.shape[-1], dtype=complex)
+    elif isinstance(a, scipy.sparse.spmatrix):
+        # Not all sparse formats support the operations used below
+        a = a.tocsr()
     if isinstance(b, (list, Number)):
         b = np.asarray(b)
     elif isinstance(b, sla.LinearOperator):
         b = b @ np.eye(a.shape[-1], dtype=complex)
+    elif isinstance(b, scipy.sparse.spmatrix):
+        b = b.tocsr()
 
     # Check if empty arrays, only compare shape. Do not use 'size', for sparse
     # matrices it is the number of stored entries.
-- 
2.43.0


From 33b65af5a90919ee580a6cb887b4a7f9d4242594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 07/40] fix: Model.toarray and tocsr convert sparse and
 LinearOperator values

---
 qsymm/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index da7ce97..3f9bbbc 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -626,7 +626,7 @@ class Model(UserDict):
                 result[key] = scipy.sparse.csr_matrix(val, dtype=complex)
             else:
                 # LinearOperator doesn't support multiplication with sparse matrix
-                val = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
+                result[key] = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
         return result
 
     def toarray(self):
@@ -638,10 +638,10 @@ class Model(UserDict):
                 result[key] = val
             elif isinstance(val, Number):
                 result[key] = np.asarray(val)
-            elif scipy.sparse.spmatrix:
-                result[key] = val.A
+            elif isinstance(val, scipy.sparse.spmatrix):
+                result[key] = val.toarray()
             else:
-                 val = val @ np.eye(val.shape[-1], dtype=complex)
+                result[key] = val @ np.eye(val.shape[-1], dtype=complex)
         return result
 
     def copy(self):
-- 
2.43.0


From cbb7f9abd7ea92ee1659aad1a62fdcad73a2c359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 08/40] fix: dense nullspace of a sparse matrix

---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index eee80e3..4d3988c 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -265,7 +265,7 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         return ns.T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
-            A = A.A
+            A = A.toarray()
         # Do dense SVD
         _, s, vh = la.svd(A, full_matrices = True)
         nnz = np.isclose(s, 0, atol=atol)
-- 
2.43.0


From 06fedbf413c06931c4624e3ec563190de38b1739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 09/40] fix: Model.tocsr of scalar valued Models

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 3f9bbbc..8d78c82 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -621,6 +621,9 @@ class Model(UserDict):
         """Convert to sparse csr format."""
         result = self.zeros_like()
         result.format = scipy.sparse.csr_matrix
+        if self.shape == ():
+            # Scalars are converted to 1x1 matrices
+            result.shape = (1, 1)
         for key, val in self.items():
             if isinstance(val, (Number, np.ndarray, scipy.sparse.spmatrix)):
                 result[key] = scipy.sparse.csr_matrix(val, dtype=complex)
-- 
2.43.0


From 95b8595233cd6e316da9972249afb1b13a753f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 10/40] fix: display ContinuousGroupGenerators without a
 unitary part

---
 qsymm/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index e595a32..1aec282 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1055,6 +1055,8 @@ def pretty_print_cgg(g, latex=False):
             L_name = r'L = {} \\'.format(_array_to_latex(np.round(L, 3)))
         else:
             L_name = '\nL = {}'.format(str(np.round(L, 3)).replace('\n', '\n    '))
+    else:
+        L_name = ''
 
     if latex:
         if R is not None:
-- 
2.43.0


From 7a973608ef254fb9b337012a63de3c86069373f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 11/40] fix: reject rotation generators that are not both
 Hermitian and antisymmetric

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 1aec282..faff188 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -535,7 +535,7 @@ class ContinuousGroupGenerator:
 
     def __init__(self, R=None, U=None):
         # Make sure that R and U have correct properties
-        if R is not None and not _is_hermitian(R) and not _is_antisymmetric(R):
+        if R is not None and not (_is_hermitian(R) and _is_antisymmetric(R)):
             raise ValueError('R must be Hermitian antisymmetric')
         if U is not None and not _is_hermitian(U):
             raise ValueError('U must be Hermitian')
-- 
2.43.0


From 39392973fc4a1ed0620410f4aa6179d78c21e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 12/40] fix: axis and angle of rotations if the components of
 the axis add up to zero

---
 qsymm/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index faff188..99b92ac 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1082,14 +1082,14 @@ def rotation_to_angle(R):
     assert allclose(R, R.real)
     n = np.array([1j * np.trace(L @ R) for L in L_matrices()]).real
     # Choose direction to minimize number of minus signs
-    absn = la.norm(n) * np.sign(np.sum(n))
+    absn = la.norm(n) * (-1 if np.sum(n) < 0 else 1)
     if np.isclose(absn, 0):
         # n is zero for 2-fold rotation, find eigenvector with +1
         val, vec = la.eigh(R)
         assert np.isclose(val[-1], 1), R
         n = vec[:, -1]
         # Choose direction to minimize number of minus signs
-        n /= np.sign(np.sum(n))
+        n *= (-1 if np.sum(n) < 0 else 1)
     else:
         n /= absn
     theta = np.arctan2(absn, np.trace(R).real - 1)
-- 
2.43.0


From 091eb62346d9b43720b128d8564668bfe51603b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 13/40] fix: add terms of a Model whose keys coincide in
 standard form

---
 qsymm/model.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 8d78c82..abea159 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -196,9 +196,10 @@ class Model(UserDict):
 
         if isinstance(hamiltonian, abc.Mapping):
             # Initialize as dict sympifying the keys
-            self.data = {symbol_normalizer(k): v for k, v in hamiltonian.items()
-                              if symbol_normalizer(k) in self.keep
-                                 or not self.keep}
+            self.data = _collect_terms((symbol_normalizer(k), v)
+                                       for k, v in hamiltonian.items()
+                                       if symbol_normalizer(k) in self.keep
+                                          or not self.keep)
 
         else:
             # Try to parse the input with kwant_continuum.sympify
@@ -261,7 +262,8 @@ class Model(UserDict):
                     new_val = complex(sympy.Mul(*numbers))  * val
                     self[new_key] += new_val
             # remove zero entries, apply symbol_normalizer
-            self.data = {symbol_normalizer(k): v for k, v in self.items() if not allclose(v, 0)}
+            self.data = _collect_terms((symbol_normalizer(k), v) for k, v in self.items()
+                                       if not allclose(v, 0))
 
     # Make sure values have the correct format
     def __setitem__(self, key, item):
@@ -1018,6 +1020,15 @@ def _bloch_normalizer(key, momenta):
         return _to_bloch_coeff(key, momenta)
 
 
+def _collect_terms(terms):
+    # Collect (key, val) pairs in a dict, different keys may become
+    # equal in standard form, add their values.
+    data = {}
+    for key, val in terms:
+        data[key] = data[key] + val if key in data else val
+    return data
+
+
 def _shape_and_format(val):
     # Find shape and type of val
     format = type(val)
-- 
2.43.0


From aa92810fd337f0d120253f61a43f3ea685488180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 14/40] fix: comparison of BlochCoeff with other objects and
 inequality of BlochCoeffs

---
 qsymm/model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index abea159..b7df41e 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -71,11 +71,16 @@ class BlochCoeff(tuple):
 
     def __eq__(self, other):
         hop1, coeff1 = self
-        if other == 1:
-            return allclose(hop1, 0) and coeff1 == 1
+        if not isinstance(other, BlochCoeff):
+            # The trivial coefficient is equal to 1
+            return bool(isinstance(other, (Number, Basic)) and other == 1
+                        and allclose(hop1, 0) and coeff1 == 1)
         hop2, coeff2 = other
         # test equality of hop with allclose
-        return allclose(hop1, hop2) and coeff1 == coeff2
+        return hop1.shape == hop2.shape and allclose(hop1, hop2) and coeff1 == coeff2
+
+    def __ne__(self, other):
+        return not self == other
 
     def __mul__(self, other):
         hop1, coeff1 = self
-- 
2.43.0


From a5568cf753dbb6a40c7a9cef85f402e459390d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 15/40] fix: exact 6-fold rotation of the hexagonal groups
 matches its spin rotation

---
 qsymm/groups.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 99b92ac..be3d20e 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -822,8 +822,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         if sympy_R:
 
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2],
-                                         [-sympy.sqrt(3)/2,       sympy.Rational(1, 2)]]
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2],
+                                         [sympy.sqrt(3)/2,       sympy.Rational(1, 2)]]
                                                          ),
                                          False, False, U6)
         else:
@@ -834,8 +834,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         C2x = rotation(1/2, [1, 0, 0], spin=spin)
         if sympy_R:
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2, 0],
-                                         [-sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2, 0],
+                                         [sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
                                          [0, 0, 1]]
                                                          ),
                                          False, False, U6)
-- 
2.43.0


From b720e2a7b196d88e2d0d47f186b0dc93bcb87279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 16/40] fix: strict comparison of PointGroupElements with exact
 and float rotations

---
 qsymm/groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index be3d20e..7c778f2 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -194,7 +194,9 @@ class PointGroupElement:
             elif (self.U is None) ^ (other.U is None):
                 U_eq = False
             else:
-                prop, coeff = prop_to_id((self.inv() * other).U)
+                # Same as the unitary part of 'self.inv() * other' up to conjugation, but
+                # it also works if one of the spatial parts is exact, the other floating point.
+                prop, coeff = prop_to_id(self.U.T.conj() @ other.U)
                 U_eq = (prop and np.isclose(abs(coeff), 1))
         else:
             U_eq = True
-- 
2.43.0


From 8a852d9b66570665571d6c4ede108f4cc8573ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 17/40] fix: bloch_family does not modify the symmetries
 provided by the user

---
 qsymm/hamiltonian_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5e01e13..25cb710 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -708,6 +708,8 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         family.extend(hopfamily)
     if symmetrize:
         # Make sure that group is generated while keeping track of unitary part.
+        # Do not modify the symmetries provided by the user.
+        pg = deepcopy(pg)
         for g in pg:
             g._strict_eq = True
         pg = generate_group(set(pg))
-- 
2.43.0


From 51b2db3f01ca2410a8c2ab52be44b872460a96fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 18/40] fix: constrain families that are not closed under the
 symmetries

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 25cb710..5f96e0c 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -419,7 +419,7 @@ def constrain_family(symmetries, family, sparse_linalg=False):
 
     # Get all variables and fix ordering
     all_variables = set()
-    for member in it.chain(*rotated_families):
+    for member in it.chain(family, *rotated_families):
         all_variables |= member.keys()
     all_variables = list(all_variables)
 
-- 
2.43.0


From 4b7da962c3095b9c7c347ade98bfde4224317eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 19/40] fix: distinguish argument types when caching normalized
 symbols

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index b7df41e..bc1c188 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1012,7 +1012,7 @@ def _find_momenta(momenta):
                         for k in _momenta)
 
 
-@lru_cache(maxsize=1000)
+@lru_cache(maxsize=1000, typed=True)
 def _symbol_normalizer(key):
     return sympy.expand_power_exp(sympy.sympify(key, locals={'e': e}))
 
-- 
2.43.0


From 292475d450f12e2f45685ccd7affbb5cb339d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 20/40] fix: Model.subs identifies momenta by equality, not
 identity

---
 qsymm/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index bc1c188..1b02f12 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -537,16 +537,16 @@ class Model(UserDict):
             # Substitution of a momentum variable with a symbol
             # is a renaming of the momentum.
             if old in momenta and isinstance(new, sympy.Symbol):
-                momenta = tuple(momentum if old is not momentum else new
+                momenta = tuple(momentum if old != momentum else new
                                 for momentum in momenta)
             # If no momenta appear in the replacement for a momentum, we consider
             # that momentum removed.
             # Replacement is not a sympy object.
             elif not isinstance(new, sympy.Basic):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
+                momenta = tuple(momentum for momentum in momenta if old != momentum)
             # Replacement is a sympy object, but does not contain momenta.
             elif not any([momentum in new.atoms() for momentum in momenta]):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
+                momenta = tuple(momentum for momentum in momenta if old != momentum)
         substituted = self.transform_symbolic(lambda x: x.subs(*args, **kwargs))
         substituted.momenta = momenta
         # If there are exponentials, evaluate any numerical exponents,
-- 
2.43.0


From f594a33e4e244c56567a115d7087334ab2d7ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 21/40] fix: nullspace does not modify a sparse input matrix

---
 qsymm/linalg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 4d3988c..55ece30 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -222,9 +222,8 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         # Do sparse eigenvalue solving
         # sigma used for shift-invert, should be a small negative value
         sigma = -1e-1
-        # Make sure A is sparse matrix
-        if isinstance(A, np.ndarray):
-            A = scipy.sparse.csr_matrix(A)
+        # Make sure A is sparse matrix, do not modify the input
+        A = scipy.sparse.csr_matrix(A, copy=True)
         A.eliminate_zeros()
         # Treat A=0 case
         if np.allclose(A.data, 0, atol=atol/A.shape[1]):
-- 
2.43.0


From b26e0ae7f7d0b57907650d28be9b6fc86eff774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 22/40] fix: _inv_int tolerates rounding errors of the
 determinant

---
 qsymm/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 55ece30..8774a11 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -622,6 +622,7 @@ def _inv_int(A):
     _A = ta.array(A, int)
     if A == np.empty((0, 0)):
         return A
-    if _A != A or abs(la.det(A)) != 1:
+    # The determinant is calculated in floating point
+    if _A != A or np.round(abs(la.det(A))) != 1:
         raise ValueError('Input needs to be an invertible integer matrix')
     return ta.array(np.round(la.inv(_A)), int)
-- 
2.43.0


From 9612fff428819266bf2f3db1bb78dcd81f74c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 23/40] fix: products of models without surviving terms keep
 the kept symbols of both factors

---
 qsymm/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 1b02f12..2c08436 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -401,6 +401,7 @@ class Model(UserDict):
             # Find out the shape of the result even if it is empty
             if isinstance(result, Number) and result == 0:
                 result = self.zeros_like()
+                result.keep = keep
                 result.shape, result.format = _shape_and_format(self[1] * other[1])
         else:
             # Otherwise try to multiply every value with other
@@ -445,6 +446,7 @@ class Model(UserDict):
             # Find out the shape of the result even if it is empty
             if isinstance(result, Number) and result == 0:
                 result = self.zeros_like()
+                result.keep = keep
                 result.shape, result.format = _shape_and_format(self[1] @ other[1])
         else:
             # Otherwise try to multiply every value with other
-- 
2.43.0


From 91cd5e9be3a113c05f97d834cd908127b9c5a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 24/40] fix: spin_matrices rejects spins that are not
 half-integer

---
 qsymm/groups.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 7c778f2..81f3cc9 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1146,9 +1146,8 @@ def spin_matrices(s, include_0=False):
         Array of shape `(3, 2*s + 1, 2*s + 1)`, or if `include_0` is True
         `(4, 2*s + 1, 2*s + 1)`.
     """
-    d = np.round(2*s + 1)
-    assert np.isclose(d, int(d))
-    d = int(d)
+    d = int(np.round(2*s + 1))
+    assert np.isclose(2*s + 1, d)
     Sz = 1/2 * np.diag(np.arange(d - 1, -d, -2))
     # first diagonal for general s from en.wikipedia.org/wiki/Spin_(physics)
     diag = [1/2*np.sqrt((s + 1) * 2*i - i * (i + 1)) for i in np.arange(1, d)]
-- 
2.43.0


From 3fa065cc5052de416f57ee81a3f953e6e5d25bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 25/40] fix: constraining a family by no symmetries returns it
 unchanged

---
 qsymm/hamiltonian_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5f96e0c..76eedeb 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -401,6 +401,9 @@ def constrain_family(symmetries, family, sparse_linalg=False):
     # Fix ordering
     family = list(family)
     symmetries = list(symmetries)
+    # Without symmetries there are no constraints
+    if not symmetries:
+        return family
     # Check compatibility of family members and symmetries
     shape = family[0].shape
     momenta = family[0].momenta
-- 
2.43.0


From 39d0faa418720e77b7562ebdddadc257c37e366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 26/40] fix: continuum_pairing accepts any iterable of
 symmetries

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 76eedeb..20005f1 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -138,9 +138,10 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
 
     if ph_square not in (-1, 1):
         raise ValueError('Particle-hole operator must square to +1 or -1.')
+    # Do not modify the symmetries provided by the user.
+    symmetries = deepcopy(list(symmetries))
     if phases is None:
         phases = np.ones(len(symmetries))
-    symmetries = deepcopy(symmetries)
     N = symmetries[0].U.shape[0]
     # Attach phases to symmetry operators and extend to BdG space
     for sym, phase in zip(symmetries, phases):
-- 
2.43.0


From 58865e5d5ea16b6f4c9405db47bbe0354a3762d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 27/40] fix: distinguish argument types when caching Bloch
 coefficients

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 2c08436..af2ad78 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1019,7 +1019,7 @@ def _symbol_normalizer(key):
     return sympy.expand_power_exp(sympy.sympify(key, locals={'e': e}))
 
 
-@lru_cache(maxsize=1000)
+@lru_cache(maxsize=1000, typed=True)
 def _bloch_normalizer(key, momenta):
     if isinstance(key, BlochCoeff):
         return key
-- 
2.43.0


From a87a78174440c719d090791e0c6b2ccf493fed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 28/40] fix: hexagonal rejects ph together with spin, as
 documented

---
 qsymm/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 81f3cc9..7086657 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -815,6 +815,10 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         is different. Here we consider the action of the mirror, which is the same as the
         action of a 2-fold rotation around the mirror axis, assuming inversion acts trivially.
     """
+    if ph and spin is not None:
+        raise ValueError('If `ph` is True, `spin` may not be provided, as it is not '
+                         'possible to deduce the unitary representation of particle-hole symmetry '
+                         'from spin alone. In this case construct the particle-hole operator manually.')
     if spin is not None and sympy_R:
         U6 = spin_rotation(np.pi / 3 * np.array([0, 0, 1]), spin)
     else:
-- 
2.43.0


From 2b26a121588f36d026734aa382c5e5b7120d549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 29/40] fix: solve_mat_eqn with conjugation solves over the
 reals

---
 qsymm/linalg.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 8774a11..78b3af3 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -449,10 +449,19 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     if N == 0:
         return np.empty((0, dim, dim))
 
+    # Equations with conjugation are only linear with real coefficients, in this
+    # case use a real basis of all (not only Hermitian) matrices
+    real_basis = any(conjugate) and not hermitian
+    def make_basis(sparse):
+        bases = [matrix_basis(dim, traceless=traceless, sparse=sparse)]
+        if real_basis:
+            bases.append(matrix_basis(dim, traceless=traceless, antihermitian=True, sparse=sparse))
+        return it.chain(*bases)
+
     # Prepare for differences in sparse and dense algebra
     if sparse:
         def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=True)
+            return make_basis(sparse=True)
         vstack = scipy.sparse.vstack
         bmat = scipy.sparse.bmat
         # Cast it to coo format and reshape
@@ -460,7 +469,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
             return scipy.sparse.coo_matrix(x).reshape((x.shape[0]*x.shape[1], 1))
     else:
         def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=False)
+            return make_basis(sparse=False)
         vstack = np.vstack
         bmat = np.block
         def flatten(x):
@@ -477,7 +486,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
 
     null_mat = bmat(null_mat)
 
-    if hermitian:
+    if hermitian or real_basis:
         # Simultaneaous equations for real and immaginary parts
         # Lapack guarantees that the SVD of a real matrix is real
         null_mat = vstack((null_mat.real, null_mat.imag))
@@ -487,7 +496,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     # Make all solutions
     # 'ij,jkl->ikl'
     def basis():
-        return matrix_basis(dim, traceless=traceless, sparse=False)
+        return make_basis(sparse=False)
     return np.array([sum((v * mat for v, mat in zip(vec, basis()))) for vec in ns])
 
 
-- 
2.43.0


From 2f3ce811942a9d6b301d8106415d2556ec71f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 30/40] fix: momenta given by name when generating families

---
 qsymm/hamiltonian_generator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 20005f1..11fb306 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -7,7 +7,7 @@ from copy import deepcopy
 import tinyarray as ta
 
 from .linalg import matrix_basis, nullspace, family_to_vectors, rref, allclose
-from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, e, I
+from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, _find_momenta, e, I
 from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group
 from . import kwant_continuum
 
@@ -228,8 +228,7 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
     else:
-        momenta = [kwant_continuum.make_commutative(k, k)
-                        for k in momenta]
+        momenta = _find_momenta(tuple(momenta))
 
     # Generate powers for all terms
     powers = [p for p in it.product(*all_powers) if sum(p) == total_power]
@@ -676,6 +675,8 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
     # Check dimensionality
     dim = len(hopping_vectors[0][-1])
     assert all([len(hop[-1]) == dim for hop in hopping_vectors])
+    # Names of momenta may be given as strings
+    momenta = _find_momenta(tuple(momenta[:dim]))
 
     # Add zero hoppings for onsites
     if onsites:
-- 
2.43.0


From 01b0e59ef28c303f9c49fae32e6180eb9c4899ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 31/40] fix: check_symmetry rounds to num_digits for continuous
 symmetries too

---
 qsymm/hamiltonian_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 11fb306..effa9f3 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -373,7 +373,10 @@ def check_symmetry(family, symmetries, num_digits=None):
                         fail()
             elif isinstance(symmetry, ContinuousGroupGenerator):
                 # Continous symmetry if applying it returns zero
-                if symmetry.apply(member) != {}:
+                applied = symmetry.apply(member)
+                if num_digits is not None:
+                    applied = applied.around(num_digits)
+                if applied != {}:
                     fail()
 
 
-- 
2.43.0


From 119052d63aea4eea88a6b2118c3783b7a508b6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 32/40] fix: keep applies to models given as text and to
 normalised terms

---
 qsymm/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index af2ad78..d27e149 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -203,7 +203,8 @@ class Model(UserDict):
             # Initialize as dict sympifying the keys
             self.data = _collect_terms((symbol_normalizer(k), v)
                                        for k, v in hamiltonian.items()
-                                       if symbol_normalizer(k) in self.keep
+                                       if normalize
+                                          or symbol_normalizer(k) in self.keep
                                           or not self.keep)
 
         else:
@@ -266,9 +267,11 @@ class Model(UserDict):
                     new_key = sympy.Mul(*symbols)
                     new_val = complex(sympy.Mul(*numbers))  * val
                     self[new_key] += new_val
-            # remove zero entries, apply symbol_normalizer
+            # remove zero entries and terms not in 'keep', apply symbol_normalizer
             self.data = _collect_terms((symbol_normalizer(k), v) for k, v in self.items()
-                                       if not allclose(v, 0))
+                                       if not allclose(v, 0)
+                                          and (symbol_normalizer(k) in self.keep
+                                               or not self.keep))
 
     # Make sure values have the correct format
     def __setitem__(self, key, item):
-- 
2.43.0


From 6c4783f4eb52de9f15e52ec6aacf755ceec55530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 33/40] fix: axis of continuous rotations in pretty_print_cgg

---
 qsymm/groups.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 7086657..24c4960 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1046,7 +1046,6 @@ def pretty_print_cgg(g, latex=False):
     if R is not None and R.shape[0] == 3:
         n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741
         n /= la.norm(n)
-        n = _round_axis(n)
         if latex:
             rot_name = r'R_{{\phi}} = R\left(\phi, {}\right)\\'.format(_round_axis(n))
         else:
-- 
2.43.0


From 1a8b0f2710691d67f4873b61a1b8498dbf83eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 34/40] fix: sparse nullspace gave up on null spaces it can
 find

---
 qsymm/linalg.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 78b3af3..757efab 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -239,19 +239,19 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
             # Successively find more eigenvalues until some not close to zero
             # Number of new null space vectors to find in each step
             k_step = abs(k_max)
-            k_max = min(A.shape[0] - 2, k_step)
-            while k_max < A.shape[0] - 1:
+            k_max = min(A.shape[0] - 1, k_step)
+            while True:
                 evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
                                          k=k_max, return_eigenvectors=True)
                 if np.max(np.abs(evals)) > atol:
                     # We found the first large one
                     break
+                elif k_max == A.shape[0] - 1:
+                    raise ValueError('A should have at most A.shape[0]-2 dimensional null space.'
+                                     'Try using sparse=False.')
                 else:
                     # All small, need to increase k_max
-                    k_max += k_step
-            else:
-                raise ValueError('A should have at most A.shape[0]-2 dimensional null space.'
-                                 'Try using sparse=False.')
+                    k_max = min(k_max + k_step, A.shape[0] - 1)
         else:
             raise ValueError('k_max must be nonzero.')
 
-- 
2.43.0


From faf8bb8dc6c2bc43bb836c3d0e06552a5dfe94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 35/40] fix: ContinuousGroupGenerator.apply raised for sparse
 models with both R and U

---
 qsymm/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 24c4960..80171fe 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -575,6 +575,8 @@ class ContinuousGroupGenerator:
                           for i, j in product(range(dim), repeat=2)])
             result += 1j * model.transform_symbolic(trf)
         if U_nonzero:
+            # Products of sparse matrices or LinearOperators with U are dense
+            result = result.toarray()
             result += model @ (1j*U) + (-1j*U) @ model
         return result
 
-- 
2.43.0


From 21f82bdfa0f58f5c91e24a52c48f91f1c0b82358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 36/40] fix: Models in sparse formats whose sums change format
 could not be added

---
 qsymm/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index d27e149..54e2399 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -282,6 +282,11 @@ class Model(UserDict):
             self.data[key] = item
         elif (isinstance(item, Number) and self.shape == ()):
             self.data[key] = np.complex128(item)
+        elif (isinstance(item, scipy.sparse.spmatrix)
+              and issubclass(self.format, scipy.sparse.spmatrix)
+              and self.shape == item.shape):
+            # Operations on some sparse formats return a different sparse format
+            self.data[key] = self.format(item)
         else:
             raise ValueError('Format of item ({}) must match the format ({}) '
                              'and shape ({}) of Model'.format(item, self.format, self.shape))
-- 
2.43.0


From 25523da4fe19c1721091cf50725b966699abcba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 37/40] fix: Model.around raised for sparse models

---
 qsymm/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 54e2399..abf8a7e 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -609,8 +609,12 @@ class Model(UserDict):
         """Return Model with matrices rounded to given number of decimals."""
         result = self.zeros_like()
         for key, val in self.items():
-            val = np.around(val, decimals)
-            if not np.allclose(val, 0):
+            if isinstance(val, scipy.sparse.spmatrix):
+                # np.around doesn't support sparse matrices
+                val = round(val.tocsr(), decimals)
+            else:
+                val = np.around(val, decimals)
+            if not allclose(val, 0):
                 result[key] = val
         return result
 
-- 
2.43.0


From 93f389fa1414d5bf5aa1c7dd6d8927a343e49513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:22 +0000
Subject: [PATCH 38/40] fix: Models from dicts with equal keys in sparse
 formats whose sums change format

---
 qsymm/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index abf8a7e..293b8eb 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1044,7 +1044,11 @@ def _collect_terms(terms):
     # equal in standard form, add their values.
     data = {}
     for key, val in terms:
-        data[key] = data[key] + val if key in data else val
+        if key in data:
+            total = data[key] + val
+            # Sums of some sparse formats have a different sparse format
+            val = type(val)(total) if isinstance(val, scipy.sparse.spmatrix) else total
+        data[key] = val
     return data
 
 
-- 
2.43.0


From d8b4dce3fba58cbaf5b140843cbc02da244b4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:15 +0000
Subject: [PATCH 39/40] fix: allclose of a number and a LinearOperator raised

---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 757efab..6d4715b 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -48,7 +48,7 @@ def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
     if isinstance(b, (list, Number)):
         b = np.asarray(b)
     elif isinstance(b, sla.LinearOperator):
-        b = b @ np.eye(a.shape[-1], dtype=complex)
+        b = b @ np.eye(b.shape[-1], dtype=complex)
     elif isinstance(b, scipy.sparse.spmatrix):
         b = b.tocsr()
 
-- 
2.43.0


From 4dddbce8b86b73eb9a35ebf01321f846ac7764b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:47 +0000
Subject: [PATCH 40/40] fix: return the transformation from rref also for a
 matrix of zeros

---
 qsymm/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 6d4715b..bf71340 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -547,11 +547,12 @@ def rref(m, rtol = 1e-3, return_S=False):
         P[i, i] = coeff
         return P
 
+    S = np.eye(rows, dtype=complex)
+
     # Stop if m is identically zero
     if np.allclose(red, 0):
-        return red
+        return (red, S) if return_S else red
 
-    S = np.eye(rows, dtype=complex)
     tol = np.max(np.abs(m)) * rtol
 
     lead = 0
-- 
2.43.0

