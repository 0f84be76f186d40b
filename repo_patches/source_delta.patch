From db3ccf8c12c05bd270db2c608dbf1e0e84a7d27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 01/49] fix: crop Affine.compare_with pieces where only self is
 defined

---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 7553b46..7497d2d 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -246,7 +246,7 @@ class Affine:
                 x = crits[i]
                 interval = Interval(x, x, True, True)
                 if domain is None or domain.contains(x):
-                    p = self if self.domain.contains(x) else None
+                    p = compare_f(self, None, interval) if self.domain.contains(x) else None
                     for f in f2:
                         if f.domain.contains(x):
                             p = compare_f(p, f, interval)
@@ -258,7 +258,7 @@ class Affine:
             # Consider the interval (crits[i], crits[i + 1])
             interval = Interval(crits[i], crits[i + 1], False, False)
             test_x = interval.midpoint()
-            p = self if self.domain.contains(test_x) else None
+            p = compare_f(self, None, interval) if self.domain.contains(test_x) else None
             for f in f2:
                 if f.domain.contains(test_x):
                     p = compare_f(p, f, interval)
-- 
2.43.0


From 97c51f316f51fd625bcea6cdba0bf54a37f4fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 02/49] fix: no dangling sign for zero terms in
 Polynomial.to_str

---
 blueprint/src/python/polynomial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/polynomial.py b/blueprint/src/python/polynomial.py
index 94ae330..2c57749 100644
--- a/blueprint/src/python/polynomial.py
+++ b/blueprint/src/python/polynomial.py
@@ -41,6 +41,10 @@ class Polynomial:
         s = []
         front = True
         for c in self.coefficients:
+            # Zero terms are not displayed, so they should not contribute a sign
+            if c == 0:
+                deg += 1
+                continue
             if front: 
                 if c < 0: s.append("-")
             else:
-- 
2.43.0


From afde701045e602a51a04a6339ad248e602f68710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 03/49] fix: RationalFunction subtraction called a missing
 method

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 7497d2d..9db561c 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -782,7 +782,7 @@ class RationalFunction:
         return self.add(other)
     
     def __sub__(self, other):
-        return self.sub(other)
+        return self.subtract(other)
 
     def __mul__(self, other):
         return self.mul(other)
-- 
2.43.0


From b6d6ed4747cc184fd807e2418cb372e0f657c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 04/49] fix: RationalFunction.div by a number multiplied
 instead

---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 9db561c..fd7963d 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -941,8 +941,8 @@ class RationalFunction:
     def div(self, other):
         r = RationalFunction([])
         if isinstance(other, numbers.Number):
-            r.num = self.num * other
-            r.den = self.den
+            r.num = self.num
+            r.den = self.den * other
             return r
         if isinstance(other, RationalFunction):
             r.num = self.num * other.den
-- 
2.43.0


From 1956027ede0a437f1af57f957ad523500fe8827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 05/49] fix: RationalFunction.add returned an exception object
 instead of raising it

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index fd7963d..83e6ae9 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -911,7 +911,7 @@ class RationalFunction:
             r.num = self.num * other.den + self.den * other.num
             r.den = self.den * other.den
             return r
-        return NotImplementedError()
+        raise NotImplementedError()
     
     def subtract(self, other):
         r = RationalFunction([])
-- 
2.43.0


From e12deae6b6bd7e5e7ccbb18daabe3a3e5d71c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 06/49] fix: keep Polytope scaling exact for integer factors

---
 blueprint/src/python/polytope.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 20fbda6..cdf7a0b 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -442,12 +442,12 @@ class Polytope:
 
         ineq_rows = [list(r) for r in Polytope._matrix_as_list(self.mat, False)]
         for c in ineq_rows:
-            c[i] /= factor
+            c[i] = frac(c[i]) / factor
         ineq_rows.extend(additional_constraints)
 
         eq_rows = [list(r) for r in Polytope._matrix_as_list(self.mat, True)]
         for c in eq_rows:
-            c[i] /= factor
+            c[i] = frac(c[i]) / factor
 
         # The matrix will not have dimensions initialised if the number of inequality
         # rows = 0, hence this strange duplicated code
@@ -478,12 +478,12 @@ class Polytope:
 
         mat = None
         if len(ineq_rows) > 0:
-            ineq_rows = [[r[0]] + [r[i + 1] / factors[i] for i in range(D)] for r in ineq_rows]
+            ineq_rows = [[r[0]] + [frac(r[i + 1]) / factors[i] for i in range(D)] for r in ineq_rows]
             mat = cdd.Matrix(ineq_rows, linear=False, number_type="fraction")
             mat.rep_type = cdd.RepType.INEQUALITY
         
         if len(eq_rows) > 0:
-            eq_rows = [[r[0]] + [r[i + 1] / factors[i] for i in range(D)] for r in eq_rows]
+            eq_rows = [[r[0]] + [frac(r[i + 1]) / factors[i] for i in range(D)] for r in eq_rows]
             if mat is None:
                 mat = cdd.Matrix(eq_rows, linear=True, number_type="fraction")
                 mat.rep_type = cdd.RepType.INEQUALITY
-- 
2.43.0


From 4dc5969e5079231e7dc2aa4426e2737c2398144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 07/49] fix: Polytope.is_subset_of accepted unbounded polytopes
 as subsets

---
 blueprint/src/python/polytope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index cdf7a0b..0a97d72 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -666,6 +666,9 @@ class Polytope:
             mat.obj_func = ab
             lp = cdd.LinProg(mat)
             lp.solve()
+            # If the objective is unbounded below, obj_value is not meaningful
+            if lp.status != cdd.LPStatusType.OPTIMAL and not self.is_empty():
+                return False
             if lp.obj_value < 0:
                 return False
         return True
-- 
2.43.0


From 3e8e17f5adbcde03c93f5a835e571f90e3157892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 08/49] fix: Polytope.set_minus dropped everything outside the
 equality rows of B

---
 blueprint/src/python/polytope.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 0a97d72..d87261e 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -542,13 +542,13 @@ class Polytope:
         
         # Iterate through the constraints of B. For each constraint, take its 
         # complement, then add the original constraint to the set of constraints
-        # for the new region. All linear constraints are ignored (see above for 
-        # rationale)
+        # for the new region. Each linear constraint is treated as two inequalities 
         A = self.mat.copy()
-        B = other.mat
+        B = Polytope._matrix_as_list(other.mat, False)
+        for eq in Polytope._matrix_as_list(other.mat, True):
+            B.extend([eq, tuple(-x for x in eq)])
         polys = []
-        for i in range(B.row_size):
-            if i in B.lin_set: continue
+        for i in range(len(B)):
             c = B[i]
             # Invert the constraint c then compute A \intersect c'
             c_comp = [-x for x in c]
@@ -565,7 +565,7 @@ class Polytope:
                 polys.append(part)
 
             # For the next part
-            if i < B.row_size - 1:
+            if i < len(B) - 1:
                 A.extend([c])
 
         return polys
-- 
2.43.0


From fc234003387cce917ca2e84ac83d8bc6210ee150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 09/49] fix: Polytope equality ignored the rays of unbounded
 polytopes

---
 blueprint/src/python/polytope.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index d87261e..10e1d66 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -165,14 +165,11 @@ class Polytope:
         )
 
     def __eq__(self, other):
-        if self.vertices is None:
-            self.compute_V_rep()
-        if other.vertices is None:
-            other.compute_V_rep()
-        # Construct set of vertices from V representation (as tuples which are hashable)
-        return set(tuple(v) for v in self.vertices) == set(
-            tuple(v) for v in other.vertices
-        )
+        # Compare the point sets, since unbounded polytopes are not determined by 
+        # their vertices
+        if self.dimension() != other.dimension():
+            return False
+        return self.is_subset_of(other) and other.is_subset_of(self)
 
     # -------------------------------------------------------------------------
     # internal/private functions
-- 
2.43.0


From c212b447d81cc1a78b48e7dad4db335989ec9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 10/49] fix: Polytope.try_union merged non-convex unions inside
 a hyperplane

---
 blueprint/src/python/polytope.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 10e1d66..c3e678a 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -301,11 +301,13 @@ class Polytope:
         # compute the intersection between them and env
         env = list(env)
         for combination in itertools.product(*neg):
-            # Check polytope formed (equivalent to the feasibility LP). If
-            # the polytope formed is non-empty, then A U B < Env, so the
-            # resulting union is not a polytope. Returns None in this case
-            p = Polytope(env + [c for c in combination])
-            if not p.is_empty(include_boundary=False):
+            # Check whether a point of env satisfies all chosen negations strictly
+            # (equivalent to the feasibility LP; the slack t >= 0 of the negations 
+            # is an additional variable, so that an env of lower dimension is 
+            # treated correctly). If so, then A U B < Env, so the resulting union 
+            # is not a polytope. Returns None in this case
+            p = Polytope([list(c) + [0] for c in env] + [list(c) + [-1] for c in combination])
+            if not p.is_subset_of(Polytope([[0] * p.dimension() + [-1]])):
                 return None
         
         # Otherwise, envelop is the union
-- 
2.43.0


From 9c52a74cb0d7ec9d7b18a777b23ac41cc6dffee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 11/49] fix: Region.project of an intersection with one or an
 empty child

---
 blueprint/src/python/region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index a7a3ac1..58f5069 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -234,9 +234,9 @@ class Region:
         
         if self.region_type == Region_Type.INTERSECT:
             ps = [c.project(dims) for c in self.child]
-            ps = [p for p in ps if p is not None]
-            if len(ps) == 0: return None
-            if len(ps) == 1: return ps[1]
+            # If one of the regions is empty then so is their intersection
+            if len(ps) == 0 or any(p is None for p in ps): return None
+            if len(ps) == 1: return ps[0]
             return Region(Region_Type.INTERSECT, ps)
         
         # In particular, complements are not yet supported. 
-- 
2.43.0


From eb6040c12652dd9c428e75aa694bae7521a445e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 12/49] fix: Region.lift dropped the complement

---
 blueprint/src/python/region.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 58f5069..6789ed7 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -250,9 +250,22 @@ class Region:
                                     Region_Type.DISJOINT_UNION, Region_Type.INTERSECT, Region_Type.COMPLEMENT}:
             raise NotImplementedError("lifting operation is not implemented for the region_type {self.region_type}.")
         
-        if self.region_type in {Region_Type.POLYTOPE, Region_Type.COMPLEMENT}:
+        if self.region_type == Region_Type.POLYTOPE:
             return Region(Region_Type.POLYTOPE, self.child.lift(var))
         
+        if self.region_type == Region_Type.COMPLEMENT:
+            lifted = Region(Region_Type.COMPLEMENT, self.child.lift(var))
+            # The limits along the new dimensions apply to the complement as well
+            limits = []
+            for i in range(len(var)):
+                if isinstance(var[i], tuple):
+                    (lower, upper) = var[i]
+                    limits.append([-lower] + [1 if j == i else 0 for j in range(len(var))])
+                    limits.append([upper] + [-1 if j == i else 0 for j in range(len(var))])
+            if len(limits) == 0:
+                return lifted
+            return Region.intersect([lifted, Region.from_polytope(Polytope(limits))])
+        
         return Region(self.region_type, [c.lift(var) for c in self.child])
 
     # Returns a representation of this region as a disjoint union of convex polytopes.
-- 
2.43.0


From de3c1c47f2dbab7a2266ec65fbc2ac879a068df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 13/49] fix: Region.to_str failed on complements

---
 blueprint/src/python/region.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 6789ed7..a327a55 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -60,7 +60,7 @@ class Region:
                 return ("\t" * indentation) + p + "\n"
             else:
                 s = ("\t" * indentation) + Region_Type.to_str(region.region_type) + "\n"
-                for r in region.child:
+                for r in (region.child if isinstance(region.child, list) else [region.child]):
                     s += Region.to_str(r, use_indentation, indentation + 1, variables)
                 return s
             
@@ -70,7 +70,8 @@ class Region:
                 return str(region.child) if variables is None else region.child.to_str(variables)
             else:
                 return Region_Type.to_str(region.region_type) + " of {" + \
-                    ", ".join(Region.to_str(r, use_indentation=False, variables=variables) for r in region.child) + "}"
+                    ", ".join(Region.to_str(r, use_indentation=False, variables=variables) 
+                              for r in (region.child if isinstance(region.child, list) else [region.child])) + "}"
     
 
     # Private methods --------------------------------------------------------
-- 
2.43.0


From b223377fdaf2a223d8980e90720ea4624b26799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 14/49] fix: Region.is_subset_of a union failed on its child
 regions

---
 blueprint/src/python/region.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index a327a55..f4ab369 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -182,7 +182,8 @@ class Region:
             if region.region_type == Region_Type.POLYTOPE:
                 return self.child.is_subset_of(region.child)
             elif region.region_type == Region_Type.UNION or region.region_type == Region_Type.DISJOINT_UNION:
-                return self.child.is_covered_by(region.child)
+                if all(r.region_type == Region_Type.POLYTOPE for r in region.child):
+                    return self.child.is_covered_by([r.child for r in region.child])
             elif region.region_type == Region_Type.INTERSECT:
                 return all(self.is_subset_of(p) for p in region.child)
         
-- 
2.43.0


From 653c440a0b648347d409943f517c6cea38f96487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 15/49] fix: Polytope.lift failed without any inequality

---
 blueprint/src/python/polytope.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index c3e678a..7939c7d 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -789,11 +789,14 @@ class Polytope:
             c[i + 1] = -1
             ineq_constraints.append(c)
         
-        # Construct matrix 
-        mat = cdd.Matrix(ineq_constraints, linear=False, number_type="fraction")
+        # Construct matrix (its column size is undefined if there are no rows)
+        if len(ineq_constraints) > 0:
+            mat = cdd.Matrix(ineq_constraints, linear=False, number_type="fraction")
+            if len(eq_constraints) > 0:
+                mat.extend(eq_constraints, linear=True)
+        else:
+            mat = cdd.Matrix(eq_constraints, linear=True, number_type="fraction")
         mat.rep_type = cdd.RepType.INEQUALITY
-        if len(eq_constraints) > 0:
-            mat.extend(eq_constraints, linear=True)
         return Polytope._from_mat(mat)
 
 
-- 
2.43.0


From bb11e38fa4e5ff93132d184f94b398c21d0bd16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 16/49] fix: Polytope.try_union returned wrong unions of
 unbounded polytopes

---
 blueprint/src/python/polytope.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 7939c7d..49861c0 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -241,10 +241,6 @@ class Polytope:
     # This implementation is based on the union algorithm in
     # A. Bemporad et al. "Convexity recognition of the union of polyhedra" (2001)
     # Algorithm 4.1
-    #
-    # This implementation only works with finite polytopes - for infinite polytopes 
-    # the wrong result is returned. See e.g. the test cases in test_polytope. 
-    # TODO: implement check and error for infinite polytopes. 
     def try_union(polys):
         if not isinstance(polys, list) or len(polys) == 0:
             return None
@@ -268,14 +264,8 @@ class Polytope:
         # Classifies the constraint by checking if the constraint in row 'row_index'
         # of 'matrix' is satisfied by all polytopes except for polytope i
         def satisfies(matrix, row_index, i):
-            for j in range(len(polys)):
-                if i != j:
-                    if not all(
-                        Polytope._satisfies(matrix, row_index, v)
-                        for v in polys[j].get_vertices()
-                    ):
-                        return False
-            return True
+            con = Polytope([matrix[row_index]], linear=(row_index in matrix.lin_set))
+            return all(polys[j].is_subset_of(con) for j in range(len(polys)) if i != j)
 
         # Iterate through the polytopes and decide whether each constraint is
         # of env type or neg type
@@ -310,7 +300,10 @@ class Polytope:
             if not p.is_subset_of(Polytope([[0] * p.dimension() + [-1]])):
                 return None
         
-        # Otherwise, envelop is the union
+        # Otherwise, envelop is the union. If there is no constraint left the union 
+        # is the entire space (represented by the trivial constraint 1 >= 0)
+        if len(env) == 0:
+            env.append([1] + [0] * polys[0].dimension())
         return Polytope(env, canonicalize=True)
 
     # Constructs a d-dimensional box as a polytope
-- 
2.43.0


From d0678b460567a1311ce59017040919d34cb4b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 17/49] fix: Affine2.min_with failed on equal functions without
 labels

---
 blueprint/src/python/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 83e6ae9..e0ca0ad 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -407,7 +407,10 @@ class Affine2:
             # If two functions are identical, then we add the one with a smaller
             # label. This is to establish a replicable order of functions.
             if all(self.a[i] == f.a[i] for i in range(len(self.a))):
-                fn = self if self.label < f.label else f
+                if self.label is None or f.label is None:
+                    fn = f if self.label is None else self
+                else:
+                    fn = self if self.label < f.label else f
                 pieces.append(Affine2(fn.a, domain, fn.label))  # Shallow copying
                 continue
 
-- 
2.43.0


From be62e5f5a143966a7b15d769dfeb2127153a84b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 18/49] fix: cached hulls of a Hypothesis_Set were shared
 between copies and between exponent pairs and mu bounds

---
 blueprint/src/python/bound_mu.py   | 10 +++++-----
 blueprint/src/python/hypotheses.py | 14 ++++++++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 3084b19..5c7b5e2 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -171,7 +171,7 @@ def get_bounds(hypothesis_set):
 def compute_convex_hull(bounds, hypothesis_set):
     conv = ConvexHull(np.array([[b.data.sigma, b.data.mu] for b in bounds]))
     vertices = [bounds[v] for v in conv.vertices]
-    hypothesis_set.data["convex_hull"] = vertices
+    hypothesis_set.data["mu_convex_hull"] = vertices
     hypothesis_set.data_valid = True
 
 
@@ -187,7 +187,7 @@ def best_mu_bound(sigma, hypothesis_set):
 
     # Computed convex hull is stored within `hypothesis_list` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-    if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
+    if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
         # Generate set of bounds on mu implied by hypothesis set
         bounds = get_bounds(hypothesis_set)
         # The convex hull package requires us to provide at least 3 points, while some
@@ -197,7 +197,7 @@ def best_mu_bound(sigma, hypothesis_set):
         compute_convex_hull(pts, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
-    verts = hypothesis_set.data["convex_hull"]
+    verts = hypothesis_set.data["mu_convex_hull"]
     for i in range(len(verts)):
         b1 = verts[i]
         b2 = verts[(i + 1) % len(verts)]
@@ -240,12 +240,12 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
 
     # Computed convex hull is stored within `hypothesis_set` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-    if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
+    if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
         bounds = get_bounds(hypothesis_set)
         compute_convex_hull(bounds, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
-    verts = hypothesis_set.data["convex_hull"]
+    verts = hypothesis_set.data["mu_convex_hull"]
     mu_bounds = []
     for i in range(len(verts)):
         b1 = verts[i].data
diff --git a/blueprint/src/python/hypotheses.py b/blueprint/src/python/hypotheses.py
index b6bbd84..2ec3f7d 100644
--- a/blueprint/src/python/hypotheses.py
+++ b/blueprint/src/python/hypotheses.py
@@ -130,9 +130,9 @@ class Hypothesis:
 class Hypothesis_Set:
     def __init__(self, hypotheses=set()):
         self.hypotheses = set()
-        self.add_hypotheses(hypotheses)
         self.data = {}
         self.data_valid = False  # set to false whenever data needs to be recomputed
+        self.add_hypotheses(hypotheses)
 
     def __repr__(self):
         return f'Set of {len(self.hypotheses)} hypotheses: [{",".join(h.name for h in self.hypotheses)}]'
@@ -140,7 +140,7 @@ class Hypothesis_Set:
     # Shallow copy, the hypothesis objects are not cloned
     def __copy__(self):
         copy = Hypothesis_Set(self.hypotheses)
-        copy.data = self.data
+        copy.data = dict(self.data)
         copy.data_valid = self.data_valid
         return copy
 
@@ -170,7 +170,7 @@ class Hypothesis_Set:
     def add_hypothesis(self, hypothesis, invalidate_data=True):
         self.hypotheses.add(hypothesis)
         if invalidate_data:
-            self.data_valid = False
+            self._invalidate_data()
 
     # Adds a set or list of hypotheses, an individual hypothesis, or a Hypothesis_Set
     def add_hypotheses(self, new_hypotheses, invalidate_data=True):
@@ -183,7 +183,13 @@ class Hypothesis_Set:
         else:
             self.hypotheses.update(new_hypotheses)
             if invalidate_data:
-                self.data_valid = False
+                self._invalidate_data()
+
+    # Drops all precomputed data, so that recomputing one piece of data does not 
+    # make the other ones appear valid
+    def _invalidate_data(self):
+        self.data = {}
+        self.data_valid = False
 
     # return all hypotheses of a given type, and (optionally) up to a given year.  Note: is now returning a Hypothesis_Set rather than a list
     def list_hypotheses(self, hypothesis_type="Any", year="Any"):
-- 
2.43.0


From ad34baba7d26e78c6557a650e879da16433776d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 19/49] fix: best_mu_bound_piecewise failed on intervals
 meeting the upper part of the hull

---
 blueprint/src/python/bound_mu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 5c7b5e2..8c00455 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -250,10 +250,11 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
     for i in range(len(verts)):
         b1 = verts[i].data
         b2 = verts[(i + 1) % len(verts)].data
-        if b2.sigma < sigma0 or b1.sigma > sigma1: 
+        # Only the lower part of the hull consists of bounds (b1.sigma < b2.sigma)
+        if b1.sigma >= b2.sigma or b2.sigma < sigma0 or b1.sigma > sigma1: 
             continue
         interval = Interval(max(sigma0, b1.sigma), min(sigma1, b2.sigma))
-        if b1.sigma < b2.sigma and not interval.is_empty():
+        if not interval.is_empty():
             mu_bounds.append(
                 Affine(
                     (b2.mu - b1.mu) / (b2.sigma - b1.sigma),
-- 
2.43.0


From fa14e05a85cae0a0b9c945bcea796f4e393aa4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 20/49] fix: the exponent pair conjecture was recorded as the
 pair (0, 0)

---
 blueprint/src/python/exponent_pair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index f7c57ec..82f90f9 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -62,7 +62,7 @@ trivial_exp_pair = Hypothesis(
 exponent_pair_conjecture = Hypothesis(
     "Exponent pair conjecture",
     "Exponent pair",
-    Exp_pair(0, 0),
+    Exp_pair(frac(0, 1), frac(1, 2)),
     "Conjecture",
     Reference.conjectured(),
 )
-- 
2.43.0


From c9d54ef75b0068fa350d847ea942bb7eae266834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 21/49] fix: hulls of exponent pairs on one line failed

---
 blueprint/src/python/exponent_pair.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 82f90f9..7ba03e5 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -7,7 +7,7 @@ import copy
 from fractions import Fraction as frac
 import itertools
 import numpy as np
-from scipy.spatial import ConvexHull
+from scipy.spatial import ConvexHull, QhullError
 import typing
 
 # Note: for the purposes of this database, we use the definition of exponent pair that allows for epsilon losses in the bound.
@@ -69,6 +69,20 @@ exponent_pair_conjecture = Hypothesis(
 
 ###############################################################################
 
+def extreme_pairs(pairs: list) -> list:
+    """
+    Given a list of exponent pairs (represented as Hypothesis objects), returns those 
+    that are vertices of their convex hull. If the hull has empty interior (i.e. 
+    all pairs lie on one line), all pairs are returned. 
+    """
+    if len(pairs) < 3:
+        return list(pairs)
+    try:
+        conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
+    except QhullError:
+        return list(pairs)
+    return [pairs[v] for v in conv.vertices]
+
 def compute_exp_pairs(
         hypothesis_set: Hypothesis_Set, 
         search_depth: int = 5, 
@@ -112,9 +126,7 @@ def compute_exp_pairs(
         if prune:
             if len(pairs) < 3:
                 continue  # Don't prune if set is too small
-            pairs = [p for p in pairs.values()]
-            conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
-            verts = [pairs[v] for v in conv.vertices]
+            verts = extreme_pairs([p for p in pairs.values()])
             pairs = {(p.data.k, p.data.l): p for p in verts}
 
     return [p for p in pairs.values()]
@@ -145,9 +157,7 @@ def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> ConvexHull:
         if len(pairs) < 3:
             hypothesis_set.data["convex_hull"] = list(pairs)
         else:
-            conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
-            vertices = [pairs[v] for v in conv.vertices]
-            hypothesis_set.data["convex_hull"] = vertices
+            hypothesis_set.data["convex_hull"] = extreme_pairs(pairs)
             hypothesis_set.data_valid = True
 
     return hypothesis_set.data["convex_hull"]
-- 
2.43.0


From db3f62bb895a173e78e8071525693140f0777a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 22/49] fix: a single bound on beta was not restricted to the
 domain

---
 blueprint/src/python/bound_beta.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/bound_beta.py b/blueprint/src/python/bound_beta.py
index 917f411..f0c792d 100644
--- a/blueprint/src/python/bound_beta.py
+++ b/blueprint/src/python/bound_beta.py
@@ -132,8 +132,8 @@ def compute_best_beta_bounds(hypothesis_set, domain=None):
         domain = Interval(0, frac(1, 2), include_lower=True, include_upper=True)
 
     # handle edge cases
-    if len(bounds) < 2:
-        return bounds
+    if len(bounds) == 0:
+        return []
 
     # Create temporary deep copy of bounds to work with
     bds = [b.data.bound.deep_copy() for b in bounds]
@@ -143,7 +143,7 @@ def compute_best_beta_bounds(hypothesis_set, domain=None):
         bds[i].label = i
 
     # Iterate through all bounds
-    best_bounds = [bds[0]]
+    best_bounds = bds[0].min_with([], domain)
     for i in range(1, len(bds)):
         best_bounds = bds[i].min_with(best_bounds, domain)
 
-- 
2.43.0


From 597edef577a799575645478862ab916b42d432af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 23/49] fix: beta bounds with a gap were turned into exponent
 pairs

---
 blueprint/src/python/exponent_pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 7ba03e5..403a3b8 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -195,6 +195,10 @@ def beta_bounds_to_exponent_pairs(
     if len(beta_bound) == 0 or (
         beta_bound[0].data.bound.domain.x0 > 0
         or beta_bound[-1].data.bound.domain.x1 < frac(1, 2)
+        or any(
+            beta_bound[i].data.bound.domain.x1 < beta_bound[i + 1].data.bound.domain.x0
+            for i in range(len(beta_bound) - 1)
+        )
     ):
         return []
 
-- 
2.43.0


From c0b7406c2273a093dd2e4ff4711d3f1a51282afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 24/49] fix: the midpoint of an interval with integer end
 points was a float

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index e0ca0ad..2873087 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -85,7 +85,7 @@ class Interval:
 
     # Returns the midpoint of the interval
     def midpoint(self):
-        return (self.x0 + self.x1) / 2
+        return (self.x0 + self.x1) * frac(1, 2)
 
     # Returns true if the interval contains the point x
     def contains(self, x):
-- 
2.43.0


From e3414f51ca5182a30ba5e0fb48105394319e4e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 25/49] fix: in_triangle rejected clockwise triangles and
 accepted points outside flat ones

---
 blueprint/src/python/exponent_pair.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 403a3b8..2560e1d 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -273,6 +273,12 @@ def in_triangle(a, b, c, p):
      d = ((b[1] - c[1])*(a[0] - c[0]) + (c[0] - b[0])*(a[1] - c[1]))
      x = ((b[1] - c[1])*(p[0] - c[0]) + (c[0] - b[0])*(p[1] - c[1]))
      y = ((c[1] - a[1])*(p[0] - c[0]) + (a[0] - c[0])*(p[1] - c[1]))
+     if d < 0: # clockwise triangles
+         x, y, d = -x, -y, -d
+     if d == 0: # a, b, c lie on one line
+         return x == 0 and y == 0 and all(
+             min(a[i], b[i], c[i]) <= p[i] <= max(a[i], b[i], c[i]) for i in range(2)
+         )
      return 0 <= x and x <= d and 0 <= y and y <= d and x + y <= d
 
 def construct_proof(
-- 
2.43.0


From 1bc1f083ac20dbd56d28d689377f0a044a803121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 26/49] fix: proofs of exponent pairs on a segment between two
 known pairs failed

---
 blueprint/src/python/exponent_pair.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 2560e1d..df6111e 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -353,10 +353,11 @@ def construct_proof(
     if deep_search: verts = ephs
 
     # Perform a naive brute-force search in O(n^3) time
-    for tri in itertools.combinations(verts, 3):
+    # (if there are only two exponent pairs, they form a flat triangle)
+    for tri in itertools.combinations(verts, min(3, len(verts))):
         if in_triangle((tri[0].data.k, tri[0].data.l),
                         (tri[1].data.k, tri[1].data.l),
-                        (tri[2].data.k, tri[2].data.l),
+                        (tri[-1].data.k, tri[-1].data.l),
                         (k, l)):
             comp = sum(v.proof_complexity() for v in tri)
             if comp < lowest_comp:
-- 
2.43.0


From 985450930ab8586b07817d9d1d54f8dd5967de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 27/49] fix: the earliest proof of an exponent pair was not
 found in sets with a conjecture

---
 blueprint/src/python/exponent_pair.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index df6111e..7e7a191 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -413,19 +413,14 @@ def find_best_proof(
     # Generate a proof of the exponent pair (k, l) by minimising the date of the
     # last dependency
     if method == Proof_Optimization_Method.DATE:
-        from_year = min(
-            h.reference.year()
-            for h in hypotheses
-            if h.reference.year() != "Unknown date"
-        )
-        to_year = max(
+        years = set(
             h.reference.year()
             for h in hypotheses
             if h.reference.year() != "Unknown date"
         )
 
         num_hypotheses = 0
-        for year in range(from_year, to_year + 1):
+        for year in sorted(years):
             hyps = Hypothesis_Set(
                 h
                 for h in hypotheses
-- 
2.43.0


From 3cc1ab40d25dfae2bf5143bcd71865e0d710d327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 28/49] fix: find_best_proof without optimisation ignored the
 derived exponent pairs

---
 blueprint/src/python/exponent_pair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 7e7a191..c5b4d14 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -473,6 +473,6 @@ def find_best_proof(
         hyps = copy.copy(hypotheses)
         hyps.add_hypotheses(beta_bounds_to_exponent_pairs(hyps))
         hyps.add_hypotheses(compute_exp_pairs(hyps, prune=True))
-        return construct_proof(k, l, hypotheses, deep_search=False, reduce_dependencies=False)
+        return construct_proof(k, l, hyps, deep_search=False, reduce_dependencies=False)
     else:
         raise NotImplementedError()
-- 
2.43.0


From c39b751a132db6791ac2397411b955113da7a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 29/49] fix: best_mu_bound_piecewise failed on intervals left
 of 0 or right of 1

---
 blueprint/src/python/bound_mu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 8c00455..a40b764 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -228,6 +228,10 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
         raise ValueError("sigma0 must be <= sigma1")
 
     # deal with edge pieces
+    if sigma1 <= 0 and sigma0 < 0:
+        return [("-x + 1/2", sigma0, sigma1)]
+    if sigma0 >= 1 and sigma1 > 1:
+        return [("0", sigma0, sigma1)]
     if sigma0 < 0:
         return [("-x + 1/2", sigma0, 0)] + best_mu_bound_piecewise(
             Interval(0, sigma1, include_lower=True, include_upper=sigma_interval.include_upper),
-- 
2.43.0


From 7a32cca395325507d8499e53695a4da6eb0ab780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 30/49] fix: best_mu_bound_piecewise failed for sets implying
 only the trivial bounds

---
 blueprint/src/python/bound_mu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index a40b764..543df22 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -245,8 +245,10 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
     # Computed convex hull is stored within `hypothesis_set` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
     if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
+        # (with the same placeholder as in best_mu_bound)
         bounds = get_bounds(hypothesis_set)
-        compute_convex_hull(bounds, hypothesis_set)
+        pts = bounds + [conjecture_bound_mu(1 / 2, 10, "Placeholder")]
+        compute_convex_hull(pts, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
     verts = hypothesis_set.data["mu_convex_hull"]
-- 
2.43.0


From 75057dc6b203413f0865b4d2c1b1f289841c818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 31/49] fix: get_trivial_zlv failed (region of the trivial zeta
 large value estimate)

---
 blueprint/src/python/zeta_large_values.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/blueprint/src/python/zeta_large_values.py b/blueprint/src/python/zeta_large_values.py
index 6d4f6dc..dc873db 100644
--- a/blueprint/src/python/zeta_large_values.py
+++ b/blueprint/src/python/zeta_large_values.py
@@ -13,21 +13,23 @@ from region import Region, Region_Type
 
 
 # Returns the trivial zeta large value estimates:
-# LV_zeta(s, t) \leq t for 1/2 \leq \s \leq 1, t \geq 0
+# LV_zeta(s, t) \leq t for 1/2 \leq s \leq 1, t \geq 2
 def get_trivial_zlv():
     # Trivial estimate
-    domain = Polytope(
-        [
-            [-frac(1, 2), 1, 0],  # \sigma > 1/2
-            [1, -1, 0],  # \sigma <= 1
-            [-2, 0, 1],  # \tau >= 2
-            [Constants.TAU_UPPER_LIMIT, 0, -1],  # \tau <= some large number
-        ]
+    region = Region.from_polytope(
+        Polytope([
+            [0, 0, 1, -1],          # \rho <= \tau
+            [0, 0, 0, 1],           # \rho >= 0
+            [-frac(1, 2), 1, 0, 0], # \sigma >= 1/2
+            [1, -1, 0, 0],          # \sigma <= 1
+            [-2, 0, 1, 0],          # \tau >= 2
+            [Constants.TAU_UPPER_LIMIT, 0, -1, 0],  # \tau <= some large number
+        ])
     )
     trivial = Hypothesis(
         "Trivial zeta large value estimate",
         "Zeta large value estimate",
-        lv.Large_Value_Estimate(Piecewise([Affine2([0, 0, 1], domain)])),
+        lv.Large_Value_Estimate(region),
         "Trivial",
         Reference.trivial(),
     )
-- 
2.43.0


From 668e6f1e062c29a57cb6eaf7c35e720c87ce86e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 32/49] fix: lver_to_lv failed on empty large value energy
 regions

---
 blueprint/src/python/additive_energy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/additive_energy.py b/blueprint/src/python/additive_energy.py
index d2dfd2a..5b1fa2b 100644
--- a/blueprint/src/python/additive_energy.py
+++ b/blueprint/src/python/additive_energy.py
@@ -398,6 +398,10 @@ def lver_to_lv(hypothesis: Hypothesis) -> Hypothesis:
 
     # Project onto the dimensions (sigma, tau, rho)
     proj = region.project({0, 1, 2})
+
+    # Handle empty projections 
+    if proj is None: return None
+
     proj.simplify()
 
     # Pack into Hypothesis object
-- 
2.43.0


From a0649306f38e9659e4a0d6390d3027ed73450a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 33/49] fix: lv_zlv_to_zd2 did not bound tau from above for
 zeta large values

---
 blueprint/src/python/zero_density_estimate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 4d50b7f..991ddae 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -440,8 +440,8 @@ def lv_zlv_to_zd2(
         Region.from_polytope(
             Polytope([
                 [-2, 0, 1, 0], # tau >= 2
-                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, 1, 0] # tau <= 4/3 * tau0
-            ])
+                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, -1, 0] # tau <= 4/3 * tau0
+            ] + sigma_rho_constraints)
         ),
         zeta = True
     )
-- 
2.43.0


From eaa0d7c6a5859cb4494791e0c1e5c2231e20ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 34/49] fix: zero density estimates derived from large values
 stated bounds on A(x)(1-x) as bounds on A(x)

---
 blueprint/src/python/derived.py               |  2 +-
 blueprint/src/python/examples.py              |  8 ++++----
 blueprint/src/python/zero_density_estimate.py | 11 +++++++----
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index 5993e14..b4c9451 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -352,7 +352,7 @@ def prove_zero_density(
         for x in xs:
             zs = [z for z in zdes if z.data.interval.contains(x)]
             if len(zs) > 0:
-                ys.append(min(z.data.at(x) / (1 - x) for z in zs))
+                ys.append(min(z.data.at(x) for z in zs))
             else:
                 ys.append(None)
         plt.plot(xs, ys)
diff --git a/blueprint/src/python/examples.py b/blueprint/src/python/examples.py
index c8e904e..36150f4 100644
--- a/blueprint/src/python/examples.py
+++ b/blueprint/src/python/examples.py
@@ -271,7 +271,7 @@ def plot(zdt, hypotheses, title=None):
         sigma = 1 / 2 + 1 / 2 * i / N
         A = next((p.data.at(sigma) for p in zdt if p.data.interval.contains(sigma)), 0)
         xs.append(sigma)
-        computed_zdt.append(A / (1 - sigma))
+        computed_zdt.append(A)
         literature_zdt.append(min(h.data.at(sigma) for h in hypotheses if h.data.interval.contains(sigma)))
 
     plt.figure(dpi=1200)
@@ -315,7 +315,7 @@ def zero_density_estimates_examples():
     )
     zdt = zd.lv_zlv_to_zd(hypotheses, Interval(frac(1, 2), 1), tau0=frac(5))
     print("Best-known vs computed zero-density estimate")
-    print("A(x)(1-x) \\leq")
+    print("A(x) \\leq")
     for h in zdt:
         h.recursively_list_proofs()
     plot(
@@ -347,7 +347,7 @@ def zero_density_estimates_examples2():
     zd.approximate_sup_LV_on_tau(hypotheses, lambda s: frac(7, 3) * s - frac(1, 3))
     zdt = zd.compute_best_zero_density_estimate(hypotheses, Interval(frac(1, 2), 1))
     print("Verifying Heath-Brown's zero-density estimate")
-    print("A(x)(1-x) \\leq")
+    print("A(x) \\leq")
     for h in zdt:
         h.recursively_list_proofs()
     plot(zdt, "Heath-Brown zero density estimate")
@@ -374,7 +374,7 @@ def zero_density_estimates_examples3():
 
     zdt = zd.lv_zlv_to_zd(hypotheses, Interval(frac(1, 2), 1), tau0=frac(3))
     print("Best-known vs computed zero-density estimate")
-    print("A(x)(1-x) \\leq")
+    print("A(x) \\leq")
     for h in zdt:
         print(h.data)
     plot(
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 991ddae..6bd63f6 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -380,7 +380,8 @@ def lv_zlv_to_zd(
                 f'τ in [{tau0},{2 * tau0}]) and zeta large value estimates (for σ in {sigma_interval}, τ in [{2},{tau0}])'
         deps = {lvr, zlvr}
         hyps.append(derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # The supremum bounds A(sigma)(1 - sigma)
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             proof,
             deps
         ))
@@ -458,7 +459,8 @@ def lv_zlv_to_zd2(
                 f"value estimates with τ0 = {tau0.to_str('σ')})"
         deps = {lvr, zlvr}
         hyps.append(derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # The supremum bounds A(sigma)(1 - sigma)
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             proof,
             deps
         ))
@@ -519,9 +521,10 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
 
     return [
         derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # The supremum bounds A(sigma)(1 - sigma)
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             f"Follows from combining {depcount[0]} large value energy regions " + \
-            "and {depcount[1]} zeta large value energy regions",
+            f"and {depcount[1]} zeta large value energy regions",
             deps
         )
         for s in sup
-- 
2.43.0


From 3bdcaaea6dffa7e4d614877368c256e2d0327d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 35/49] fix: zero density (energy) bounds failed for energy
 regions projecting to a single polytope

---
 .../python/zero_density_energy_estimate.py    |  9 +++++---
 blueprint/src/python/zero_density_estimate.py | 22 +++++++++++++------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index e49d2a4..cff35bd 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -13,7 +13,7 @@ from functions import Affine, Interval, RationalFunction as RF
 from hypotheses import Hypothesis, Hypothesis_Set
 from polytope import Polytope
 from reference import Reference
-from region import Region
+from region import Region, Region_Type
 
 
 class Zero_Density_Energy_Estimate:
@@ -266,7 +266,7 @@ def compute_sup_LV_on_tau(
     ----------
     LV_region : Region
         The region of feasible (sigma, tau, rho) values. This region must be a
-        union or disjoint union of Polytope objects.
+        Polytope, or a union or disjoint union of Polytope objects.
     sigma_interval : Interval
         The range of sigma values to consider. 
 
@@ -277,7 +277,10 @@ def compute_sup_LV_on_tau(
     """
     # assume that LV_region is a union of polytopes and that the (sigma-tau) domain
     # is already correct
-    polys = [r.child for r in LV_region.child]
+    if LV_region.region_type == Region_Type.POLYTOPE:
+        polys = [LV_region.child]
+    else:
+        polys = [r.child for r in LV_region.child]
 
     # each polytope is 3-dimensional. Find all edges and project them onto the 
     # sigma dimension. For those with a non-zero projection, compute rho / tau along 
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 6bd63f6..536eba9 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -17,7 +17,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 from polytope import Polytope
 from reference import Reference
-from region import Region
+from region import Region, Region_Type
 import scipy
 import numbers
 import zeta_large_values as zlv
@@ -466,6 +466,12 @@ def lv_zlv_to_zd2(
         ))
     return hyps
 
+# Returns the polytopes that make up a polytope or a union of polytopes
+def _get_polytopes(region: Region) -> list:
+    if region.region_type == Region_Type.POLYTOPE:
+        return [region.child]
+    return [r.child for r in region.child]
+
 def lver_to_zd(LVER, LVER_zeta, sigma_interval):
     """
     Compute the best zero density estimate implied by a large value energy
@@ -498,18 +504,20 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
     if LVER is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup1 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup1))
+        if proj is not None:
+            proj.simplify()
+            sup1 = compute_sup_rho_on_tau(_get_polytopes(proj), sigma_interval)
+            fns.extend(list(sup1))
         deps.update(list(LVER.dependencies))
         depcount[0] = len(LVER.dependencies)
 
     if LVER_zeta is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER_zeta.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup2 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup2))
+        if proj is not None:
+            proj.simplify()
+            sup2 = compute_sup_rho_on_tau(_get_polytopes(proj), sigma_interval)
+            fns.extend(list(sup2))
         deps.update(list(LVER_zeta.dependencies))
         depcount[1] = len(LVER_zeta.dependencies)
 
-- 
2.43.0


From 6f97d89fc3de9aad7d7dd49fbb5224fc5ea91ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 36/49] fix: trivial energy estimates of derived zero density
 estimates could not be evaluated and rested on nothing

---
 blueprint/src/python/zero_density_energy_estimate.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index cff35bd..34a008e 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -155,11 +155,13 @@ def add_trivial_zero_density_energy_estimates(hypotheses: Hypothesis_Set):
     # add zero density energy estimates arising from A(sigma)
     zdes = hypotheses.list_hypotheses(hypothesis_type="Zero density estimate")
     for zde in zdes:
-        hypotheses.add_hypothesis(
-            trivial_zero_density_energy_estimate(
-                Zero_Density_Energy_Estimate(f"3 * ({zde.data.expr})", zde.data.interval)
-            )
-        )
+        data = Zero_Density_Energy_Estimate(f"3 * ({zde.data.expr})", zde.data.interval)
+        # The expr of a derived estimate is only for display and cannot be parsed
+        if zde.data.bound is not None:
+            data.bound = zde.data.bound.mul(3)
+        hyp = trivial_zero_density_energy_estimate(data)
+        hyp.dependencies = {zde}
+        hypotheses.add_hypothesis(hyp)
     
     # add zero density energy estimates arising from A*(1/2) = 6 and non-increasingness
     # of (1 - \sigma) A*(\sigma), which implies A*(\sigma) \leq 3/(1-\sigma) for \sigma
-- 
2.43.0


From ce37b8a0e76dc5edee33ec30e4ed6b0e5d7d5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 37/49] fix: gaps of the best energy bound were recorded as
 zero density estimates

---
 blueprint/src/python/zero_density_energy_estimate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index 34a008e..512f67f 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -350,10 +350,10 @@ def compute_best_energy_bound(hypotheses: Hypothesis_Set) -> list:
         if ref < 0:
             best_bound.append(
                 Hypothesis(
-                    "Placeholder zero density estimate",
-                    "Zero density estimate",
+                    "Placeholder zero density energy estimate",
+                    "Zero density energy estimate",
                     zde,
-                    "Placeholder zero density estimate",
+                    "Placeholder zero density energy estimate",
                     Reference.trivial(),
                 )
             )
-- 
2.43.0


From 6b103082e4a297c43984c37e7b6e337c277608d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 38/49] fix: Ivic zero density estimates could not be evaluated
 (missing multiplication sign)

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 536eba9..067ccf8 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -563,7 +563,7 @@ def ivic_ep_to_zd(exp_pairs, m=2):
     sigma0 = max(sigma0, frac(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2))
     sigma0 = min(sigma0, frac(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2))
 
-    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}x + {2-m})", Interval(sigma0, 1))
+    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}*x + {2-m})", Interval(sigma0, 1))
     return derived_zero_density_estimate(
         zde, f"Follows from {dep.data}", {dep}
     )
-- 
2.43.0


From a00bf2a5d1c03ea3618caa294fe48893f03afd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 39/49] fix: ep_to_zd called bourgain_ep_to_zd with an argument
 it does not take

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 067ccf8..c16232a 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -736,7 +736,7 @@ def ep_to_zd(hypotheses):
     hypotheses.add_hypotheses(ep.compute_best_beta_bounds(hypotheses))
     ephs = ep.beta_bounds_to_exponent_pairs(hypotheses)
 
-    return bourgain_ep_to_zd(ephs) + [ivic_ep_to_zd(ephs, m=2)]
+    return bourgain_ep_to_zd() + [ivic_ep_to_zd(ephs, m=2)]
 
 # Given a list of tuples (RationalFunction, interval),
 # returns a simplified list of tuples representing the same piecewise defined
-- 
2.43.0


From 106e2ed4a962dcee45ff1827a83da3529306f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 40/49] fix: Bourgain's large value estimate left rho unbounded
 on one piece (missing coefficient)

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index d1ffe19..15847e8 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -783,7 +783,7 @@ def add_bourgain_large_values_estimate():
             [1, -1, 0, 0]
         ]),
         Polytope([
-            [8, -12, frac(4,3), 0],     # ρ <= 8 - 12σ + 4τ/3
+            [8, -12, frac(4,3), -1],     # ρ <= 8 - 12σ + 4τ/3
             [0, 0, 0, 1],               # ρ >= 0
             [-frac(1,2), 1, 0, 0],      # σ >= 1/2
             [15, -21, 1, 0],
-- 
2.43.0


From 5d69844a4da302b852d025242916a5256b675b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 41/49] fix: Guth-Maynard energy relation 1 had the
 coefficients of rho and rho* swapped

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index 15847e8..16d502d 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -1014,7 +1014,7 @@ def add_lver_guth_maynard_2024a(K):
         # First region arising on S_3 <= 2tau + rho/2 + rho*/2
         reg1 = Region.from_union_of_halfplanes(
             common + [
-                [1, -2, frac(2,3), frac(1,6), -frac(5,6), 0]
+                [1, -2, frac(2,3), -frac(5,6), frac(1,6), 0]
             ],
             rect
         )
-- 
2.43.0


From 3418c60ad09573bff0282c2eb074b0a68e6ed34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 42/49] fix: Huxley's 1993 bound on beta changes form at
 49/114, not 49/144

---
 blueprint/src/python/literature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index 16d502d..1172810 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -62,14 +62,14 @@ add_beta_bound_huxley_kolesnik_1991()
 def add_beta_bound_huxley_1993():
     bbeta.add_beta_bound(
         literature,
-        Affine(frac(7, 20), frac(13, 60), Interval("[0, 49/144]")).max_with(
-            [Affine(frac(13, 20), frac(11, 120), Interval("[0, 49/144]"))]
+        Affine(frac(7, 20), frac(13, 60), Interval("[0, 49/114]")).max_with(
+            [Affine(frac(13, 20), frac(11, 120), Interval("[0, 49/114]"))]
         ),
         rm.get("huxley_exponential_1993"),
     )
     bbeta.add_beta_bound(
         literature,
-        [Affine(frac(1, 2), frac(89, 570), Interval("[49/144, 1/2]"))],
+        [Affine(frac(1, 2), frac(89, 570), Interval("[49/114, 1/2]"))],
         rm.get("huxley_exponential_1993"),
     )
 
-- 
2.43.0


From 2cc28e3d2b71516bd434dec7e7b03f8b54f35ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 43/49] fix: Ivic's second 1980 zero density estimate ends at
 17/18

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index 1172810..c882c49 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -1213,7 +1213,7 @@ def add_zero_density_ivic_1980():
         literature, "4/(2 * x + 1)", Itvl(frac(17, 18), 1), Reference.make("Ivic", 1980)
     )
     zd.add_zero_density(
-        literature, "24/(30 * x - 11)", Itvl(frac(155, 174), 1), Reference.make("Ivic", 1980),
+        literature, "24/(30 * x - 11)", Itvl(frac(155, 174), frac(17, 18)), Reference.make("Ivic", 1980),
     )
 add_zero_density_ivic_1980()
 
-- 
2.43.0


From 0e380b98893dec07f77b9c7926391e236ab1df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 44/49] fix: Heath-Brown energy derivations called
 lver_to_energy_bound with arguments it no longer takes

---
 blueprint/src/python/derived.py | 109 +++-----------------------------
 1 file changed, 10 insertions(+), 99 deletions(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index b4c9451..363888b 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -673,30 +673,7 @@ def prove_heath_brown_energy_estimate():
 
     # tau_0 as an affine function 
     tau0 = Affine(0, 2, Interval(frac(1,2), frac(3,4)))
-    LVER_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-    
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional polytope
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False, debug=False)
-
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True, debug=False)
-    ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, tau0.domain)
+    hs = ze.lver_to_energy_bound(hypotheses, tau0, debug=False)
 
 
     # Part 2: \sigma \in [3/4, 25/28] ----------------------------------------------------------
@@ -717,40 +694,12 @@ def prove_heath_brown_energy_estimate():
 
     # tau_0 as an affine function 
     tau0 = Affine(4, -1, Interval(frac(3,4), frac(25,28)))
-
-    LVER_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-    
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional 
-    # polytope for a range of sigma
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False, debug=False)
-
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True, debug=False)
-    ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, tau0.domain)
+    hs.extend(ze.lver_to_energy_bound(hypotheses, tau0, debug=False))
+    for h in hs: print(h.data)
+    return hs
 
 def prove_improved_heath_brown_energy_estimate():
     
-    # tau_0 as a piecewise affine function 
-    tau0s = [
-        Affine(8, -4, Interval(frac(3,4), frac(4,5)))
-    ]
-
     hypotheses = Hypothesis_Set()
 
     for k in range(2, 5):
@@ -758,58 +707,20 @@ def prove_improved_heath_brown_energy_estimate():
 
     # Add classical and literature Large value estimates
     hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Huxley large value estimate"))
+    hypotheses.add_hypothesis(literature.find_hypothesis(hypothesis_type="Zeta large value estimate"))
     hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Heath-Brown large value energy region 2a"))
 
     # Convert all large value estimates -> large value energy region
     hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=False))
 
-    # Convert tau_0 into a Region of (sigma, tau)
-    # domain representing tau0 <= tau <= 2tau0
-    LVER_domain = Region.disjoint_union([
-        Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-        for tau0 in tau0s
-    ])
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional 
-    # polytope for a range of sigma
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False)
-    
-    # New set of hypothesis for the zeta LVER computation
-    hypotheses = Hypothesis_Set()
-
-    for k in range(2, 3):
-        hypotheses.add_hypothesis(ad.get_raise_to_power_hypothesis(k))
-
-    hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Huxley large value estimate"))
-    hypotheses.add_hypothesis(literature.find_hypothesis(hypothesis_type="Zeta large value estimate"))
-    hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Heath-Brown large value energy region 2a"))
-    
-    # Convert all large value estimates -> large value energy region
-    hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=False))
     # Convert all zeta large value estimates -> zeta large value energy region
     hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=True))
 
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.disjoint_union([
-        Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-        for tau0 in tau0s
-    ])
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True)
-    bounds = ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, Interval(frac(1,2), 1))
+    # tau_0 as an affine function 
+    tau0 = Affine(8, -4, Interval(frac(3,4), frac(4,5)))
+    hs = ze.lver_to_energy_bound(hypotheses, tau0, debug=False)
+    for h in hs: print(h.data)
+    return hs
 
 def prove_zero_density_energy_2():
     hypotheses = Hypothesis_Set()
-- 
2.43.0


From 5958acf74495cc9e775756f002e1a0a3e73f5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 45/49] fix: exponent pairs from beta bounds did not record all
 the bounds they rest on

---
 blueprint/src/python/exponent_pair.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index c5b4d14..f17481a 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -212,19 +212,10 @@ def beta_bounds_to_exponent_pairs(
     # Compute the convex hull containing the \beta bounds
     conv = ConvexHull(np.array(points))
 
-    # Precompute the dependencies. Currently every beta bound that is on the boundary
-    # of the convex hull is included in the dependencies for every exponent pair
-    dep_indices = set()
-    for v in conv.vertices:
-        if v >= 2:  # skip the placeholder vertices:
-            p = points[v]
-            for i in range(len(beta_bound)):
-                f = beta_bound[i].data.bound
-                if (f.domain.x0 == p[0] and f.at(p[0], extend_domain=True) == p[1]) or (
-                    f.domain.x1 == p[0] and f.at(p[0], extend_domain=True) == p[1]
-                ):
-                    dep_indices.add(i)
-    dependencies = [beta_bound[i] for i in dep_indices]
+    # Every exponent pair depends on all of the beta bounds: a line \beta = m * \alpha + c
+    # gives an exponent pair only if it lies above \beta on the whole of [0, 1/2],
+    # including the pieces that do not touch the boundary of the convex hull
+    dependencies = beta_bound
     # Keep track of the existing set of exponent pairs,
     known_ephs = hypothesis_set.list_hypotheses("Exponent pair")
     known_eps = {(p.data.k, p.data.l):p for p in known_ephs}
-- 
2.43.0


From 6d42c6f84fa63cfea594244ea0f441cfd5182071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:45 +0000
Subject: [PATCH 46/49] fix: an @ inside a bibtex field does not start a new
 entry

---
 blueprint/src/python/reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index a4ab596..43c3425 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -80,7 +80,7 @@ class Reference_Manager:
 
         # parse file
         s = " ".join(l.strip() for l in lines)
-        items = s.split("@")
+        items = self._split_level(s, "{", "}", "@", 0)
 
         for item in items:
             if len(item) == 0:
-- 
2.43.0


From c065472f12fd89930bda4df8a940e55ce4464822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 47/49] fix: read bibtex values that are quoted or bare numbers

---
 blueprint/src/python/reference.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index 43c3425..b83a86c 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -121,15 +121,19 @@ class Reference_Manager:
                 level += 1
         return "".join(chs)
 
-    # Split by delimiter, but only when it is nested 'level' deep
-    def _split_level(self, item, open_brace, close_brace, delim, level):
+    # Split by delimiter, but only when it is nested 'level' deep (and not between
+    # a pair of quotation marks at that level, if quotes is True)
+    def _split_level(self, item, open_brace, close_brace, delim, level, quotes=False):
         split = []  # contains all words
         chs = []  # current word
         l = 0
+        quoted = False
         for c in item:
             if c == close_brace:
                 l -= 1
-            if l == level and c == delim:
+            if quotes and l == level and c == '"':
+                quoted = not quoted
+            if l == level and c == delim and not quoted:
                 if len(chs) > 0:
                     split.append("".join(chs))
                     chs.clear()
@@ -160,7 +164,7 @@ class Reference_Manager:
 
         typ = item.split("{")[0].lower()
         ref = self._extract(item, "{", "}")
-        entries = self._split_level(ref, "{", "}", ",", 0)
+        entries = self._split_level(ref, "{", "}", ",", 0, quotes=True)
         label = entries[0].strip()
         
         fields = {}
@@ -168,10 +172,13 @@ class Reference_Manager:
             e = entries[i].strip()
             if len(e) == 0:
                 continue
-            kvp = self._split_level(e, "{", "}", "=", 0)
+            kvp = self._split_level(e, "{", "}", "=", 0, quotes=True)
             if len(kvp) >= 2:
                 key = kvp[0].strip().lower()
-                value = self._extract(kvp[1].strip(), "{", "}")
+                # A value is enclosed by braces or quotation marks, or is a bare number
+                value = kvp[1].strip().strip('"')
+                if value.startswith("{"):
+                    value = self._extract(value, "{", "}")
                 if len(key) == 0 or len(value) == 0:
                     continue
                 if key == "year":
-- 
2.43.0


From a8419962ccad4dcaa4df1c40a44f0d62522290e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 48/49] fix: find_all failed on references without an author or
 a year

---
 blueprint/src/python/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index b83a86c..ff54d87 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -93,8 +93,8 @@ class Reference_Manager:
         refs = []
         for k in self.refs:
             ref = self.refs[k]
-            if (author == "Any" or author in ref.entries["author"]) and (
-                year == "Any" or ref.entries["year"] == year
+            if (author == "Any" or author in ref.author()) and (
+                year == "Any" or ref.year() == year
             ):
                 refs.append(ref)
         return refs
-- 
2.43.0


From edde07e12087f95b29fadb9af7500ef17a8c21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 49/49] fix: reading a bibliography that starts with blank
 lines or comments failed

---
 blueprint/src/python/reference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index ff54d87..5bcfbcc 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -83,7 +83,8 @@ class Reference_Manager:
         items = self._split_level(s, "{", "}", "@", 0)
 
         for item in items:
-            if len(item) == 0:
+            # Blank lines and comments before the first entry
+            if "{" not in item:
                 continue
             ref = self._parse(item)
             if len(ref.label) > 0:
-- 
2.43.0

