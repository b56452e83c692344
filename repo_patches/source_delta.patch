From 9f15bb42d1c875b6aea58a5cca574b2985acf852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 01/11] fix: PatternDict is unchanged when a non-pattern member
 is rejected

---
 paragami/pattern_containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 20c06c0..c979aa5 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -218,6 +218,10 @@ class PatternDict(Pattern):
         # if pattern_name in self.__pattern_dict.keys():
         #     self.__delitem__(pattern_name)
 
+        # Make sure the new member is a pattern before changing anything.
+        pattern.flat_length(free=True)
+        pattern.flat_length(free=False)
+
         self.__pattern_dict[pattern_name] = pattern
 
         # We cannot allow pattern dictionaries to change their size
-- 
2.43.0


From 7fc4a745cf31aa9fa867a7e2479714e8f6a1ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 02/11] fix: lock members that are instances of PatternDict
 subclasses

---
 paragami/pattern_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index c979aa5..4eac0d6 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -229,7 +229,7 @@ class PatternDict(Pattern):
         # since we have no way of updating the parent dictionary's size.
         # To avoid unexpected errors, lock any dictionary that is set as
         # a member.
-        if type(self.__pattern_dict[pattern_name]) is PatternDict:
+        if isinstance(self.__pattern_dict[pattern_name], PatternDict):
             self.__pattern_dict[pattern_name].lock()
 
         self._free_flat_length = self._update_flat_length(free=True)
-- 
2.43.0


From 25bf1e2c91c0da80600c438515fcd5d13f88cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 03/11] fix: keep free_default in the JSON of every pattern

---
 paragami/pattern_containers.py | 12 +++++++++---
 paragami/psdmatrix_patterns.py |  3 ++-
 paragami/simplex_patterns.py   |  6 ++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 4eac0d6..b10d63c 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -206,7 +206,8 @@ class PatternDict(Pattern):
         return {
             'pattern': self.json_typename(),
             'keys': keys,
-            'contents': contents}
+            'contents': contents,
+            'free_default': self.free_default}
 
     def _check_lock(self):
         if self.__lock:
@@ -381,6 +382,8 @@ class PatternDict(Pattern):
                     cls.json_typename(), json_dict['pattern'])
             raise ValueError(error_string)
         pattern_dict = cls()
+        # JSON written by earlier versions has no ``free_default``.
+        pattern_dict.free_default = json_dict.get('free_default')
         for pattern_name in json_dict['keys']:
             pattern_dict[pattern_name] = get_pattern_from_json(
                 json_dict['contents'][pattern_name])
@@ -491,7 +494,8 @@ class PatternArray(Pattern):
             'pattern': self.json_typename(),
             'shape': self.__shape,
             'array_shape': self.__array_shape,
-            'base_pattern': self.__base_pattern.to_json() }
+            'base_pattern': self.__base_pattern.to_json(),
+            'free_default': self.free_default }
 
     def array_shape(self):
         """The shape of the array of parameters.
@@ -642,8 +646,10 @@ class PatternArray(Pattern):
                     cls.json_typename(), json_dict['pattern'])
             raise ValueError(error_string)
         base_pattern = get_pattern_from_json(json_dict['base_pattern'])
+        # JSON written by earlier versions has no ``free_default``.
         return cls(
-            array_shape=json_dict['array_shape'], base_pattern=base_pattern)
+            array_shape=json_dict['array_shape'], base_pattern=base_pattern,
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         free = self._free_with_default(free)
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 43affc4..e38f6f2 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -212,7 +212,8 @@ class PSDSymmetricMatrixPattern(Pattern):
             'pattern': self.json_typename(),
             'size': self.__size,
             'diag_lb': self.__diag_lb,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def size(self):
         """Returns the matrix size.
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 78ca980..e05356a 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -130,7 +130,8 @@ class SimplexArrayPattern(Pattern):
             'pattern': self.json_typename(),
             'simplex_size': self.__simplex_size,
             'array_shape': self.__array_shape,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def empty(self, valid):
         if valid:
@@ -219,7 +220,8 @@ class SimplexArrayPattern(Pattern):
         return cls(
             simplex_size=json_dict['simplex_size'],
             array_shape=tuple(json_dict['array_shape']),
-            default_validate=json_dict['default_validate'])
+            default_validate=json_dict['default_validate'],
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         # If no indices are specified, save time and return an empty array.
-- 
2.43.0


From b3318c1a372e03f2506d3c0f80a5cf1ac74bc612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 04/11] fix: the optimization log keeps its own copy of the
 argument

---
 paragami/optimization_lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index ea2a538..54d5329 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -458,7 +458,9 @@ class OptimizationObjective():
         f_val:
             The value of the objective at ``x``.
         """
-        self.optimization_log.append((num_f_evals, x, f_val))
+        # Copy x, since optimizers may re-use its memory.
+        # Note that deepcopy will cause autograd to fail.
+        self.optimization_log.append((num_f_evals, copy.copy(x), f_val))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0


From b7fe8927f83a397258af38fb0d09427db11cbfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 05/11] fix: the Jacobians of a copied pattern are those of the
 copy

---
 paragami/base_patterns.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/paragami/base_patterns.py b/paragami/base_patterns.py
index 482d5c7..cad523c 100644
--- a/paragami/base_patterns.py
+++ b/paragami/base_patterns.py
@@ -21,11 +21,6 @@ class Pattern(ABC):
         self._flat_length = flat_length
         self._free_flat_length = free_flat_length
 
-        # In practice you'll probably want to implement custom versions
-        # of these Jacboians.
-        self._freeing_jacobian = autograd.jacobian(self._freeing_transform)
-        self._unfreeing_jacobian = autograd.jacobian(self._unfreeing_transform)
-
         self.free_default = free_default
 
     # Abstract methods that must be implemented by subclasses.
@@ -270,7 +265,9 @@ class Pattern(ABC):
         Pattern.unfreeing_jacobian
         """
         flat_val = self.flatten(folded_val, free=False)
-        jac = self._freeing_jacobian(flat_val)
+        # In practice you'll probably want to implement custom versions
+        # of these Jacobians.
+        jac = autograd.jacobian(self._freeing_transform)(flat_val)
         if sparse:
             return coo_matrix(jac)
         else:
@@ -306,7 +303,7 @@ class Pattern(ABC):
         Pattern.freeing_jacobian
         """
         freeflat_val = self.flatten(folded_val, free=True)
-        jac = self._unfreeing_jacobian(freeflat_val)
+        jac = autograd.jacobian(self._unfreeing_transform)(freeflat_val)
         if sparse:
             return coo_matrix(jac)
         else:
-- 
2.43.0


From b32806d04d2972791e3c12262ea413e5594c9b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 06/11] fix: a PatternDict that has been emptied is a valid
 pattern

---
 paragami/pattern_containers.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index b10d63c..e0a3e6a 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -131,6 +131,13 @@ def load_folded(file):
     return folded_val, pattern, data
 
 
+def _get_block_diagonal(jacobians):
+    # ``block_diag`` does not accept an empty list.
+    if len(jacobians) == 0:
+        return coo_matrix((0, 0))
+    return block_diag(jacobians, format='coo')
+
+
 ##########################
 # Dictionary of patterns.
 
@@ -322,13 +329,17 @@ class PatternDict(Pattern):
                     free=free,
                     validate_value=validate_value))
             #offset += pattern_flat_length
+        if len(flat_vals) == 0:
+            return np.array([])
         return np.hstack(flat_vals)
 
     def _update_flat_length(self, free):
         # This is a little wasteful with the benefit of being less error-prone
         # than adding and subtracting lengths as keys are changed.
-        return np.sum([pattern.flat_length(free) for pattern_name, pattern in
-                       self.__pattern_dict.items()])
+        # Note that the sum of an empty list would otherwise be a float.
+        return int(np.sum([pattern.flat_length(free)
+                           for pattern_name, pattern in
+                           self.__pattern_dict.items()]))
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         jacobians = []
@@ -337,7 +348,7 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
-        sp_jac = block_diag(jacobians, format='coo')
+        sp_jac = _get_block_diagonal(jacobians)
 
         if sparse:
             return sp_jac
@@ -351,7 +362,7 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
-        sp_jac = block_diag(jacobians, format='coo')
+        sp_jac = _get_block_diagonal(jacobians)
         if sparse:
             return sp_jac
         else:
@@ -420,6 +431,8 @@ class PatternDict(Pattern):
             pattern_flat_names = \
                 [ pattern_name + delim + t for t in pattern_flat_names]
             flat_names_list.append(pattern_flat_names)
+        if len(flat_names_list) == 0:
+            return np.array([], dtype=str)
         return np.hstack(flat_names_list)
 
 
-- 
2.43.0


From c5a921c6cacd9d13c5e7d2e6b758028bf1b2b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 07/11] fix: flat_names of a PatternDict does not use its
 members' free defaults

---
 paragami/pattern_containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index e0a3e6a..c3c3e38 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -424,6 +424,9 @@ class PatternDict(Pattern):
             return np.array([], dtype=int)
 
     def flat_names(self, free, delim='_'):
+        # Containers must not mix free and non-free names, so do not
+        # use the members' default values for free.
+        free = self._free_with_default(free)
         flat_names_list = []
         for pattern_name, pattern in self.__pattern_dict.items():
             pattern_flat_names = pattern.flat_names(free)
-- 
2.43.0


From 1fe95e47174f79bd705e6f554989bb2b385454a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 08/11] fix: a 1x1 sparse preconditioner can be given without
 its inverse

---
 paragami/optimization_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 54d5329..15d2b23 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -200,6 +200,9 @@ class PreconditionedFunction():
         if osp.sparse.issparse(a):
             if a_inv is None:
                 a_inv = osp.sparse.linalg.inv(a)
+                if not osp.sparse.issparse(a_inv):
+                    # scipy returns the inverse of a 1x1 matrix as a vector.
+                    a_inv = np.reshape(a_inv, a.shape)
             a_times, _ = get_sparse_product(a)
             a_inv_times, _ = get_sparse_product(a_inv)
             self.set_preconditioner_functions(a_times, a_inv_times)
-- 
2.43.0


From ffa86c153f610efca4e2c1b57d7499169fc0b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 09/11] fix: the optimization log keeps its own copy of the
 value

---
 paragami/optimization_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 15d2b23..0854809 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -461,9 +461,11 @@ class OptimizationObjective():
         f_val:
             The value of the objective at ``x``.
         """
-        # Copy x, since optimizers may re-use its memory.
+        # Copy x and f_val, since optimizers (or objectives) may re-use their
+        # memory.
         # Note that deepcopy will cause autograd to fail.
-        self.optimization_log.append((num_f_evals, copy.copy(x), f_val))
+        self.optimization_log.append(
+            (num_f_evals, copy.copy(x), copy.copy(f_val)))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0


From 611bfcf417a40aca20520107d0396f6e2af3f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:56 +0000
Subject: [PATCH 10/11] fix: an interrupted import of paragami can be repeated

---
 paragami/numeric_array_patterns.py | 7 ++++---
 paragami/psdmatrix_patterns.py     | 3 ++-
 paragami/simplex_patterns.py       | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 83ea445..aa492b3 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -362,6 +362,7 @@ class NumericScalarPattern(NumericArrayPattern):
             'free_default': self.free_default}
 
 
-register_pattern_json(NumericVectorPattern)
-register_pattern_json(NumericScalarPattern)
-register_pattern_json(NumericArrayPattern)
+# This module may be executed again if its import was interrupted.
+register_pattern_json(NumericVectorPattern, allow_overwrite=True)
+register_pattern_json(NumericScalarPattern, allow_overwrite=True)
+register_pattern_json(NumericArrayPattern, allow_overwrite=True)
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index e38f6f2..2c839c7 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -342,4 +342,5 @@ class PSDSymmetricMatrixPattern(Pattern):
 
 
 
-register_pattern_json(PSDSymmetricMatrixPattern)
+# This module may be executed again if its import was interrupted.
+register_pattern_json(PSDSymmetricMatrixPattern, allow_overwrite=True)
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index e05356a..70730ca 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -260,4 +260,5 @@ class SimplexArrayPattern(Pattern):
                 return np.array([])
 
 
-register_pattern_json(SimplexArrayPattern)
+# This module may be executed again if its import was interrupted.
+register_pattern_json(SimplexArrayPattern, allow_overwrite=True)
-- 
2.43.0


From bb1d89db95473827d0907c5d58b5d747caeb5e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:56 +0000
Subject: [PATCH 11/11] fix: paragami can be imported when git fails half way

---
 paragami/_version.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paragami/_version.py b/paragami/_version.py
index a2e68a4..eda8591 100644
--- a/paragami/_version.py
+++ b/paragami/_version.py
@@ -295,11 +295,15 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+    date, rc = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
+                           cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0

