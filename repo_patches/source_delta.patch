From cb580279fca1532d6c09f90d97c62d54bd124b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 1/9] fix: python -m srg.database failed to import srg.util
 (module is utils, check is assert_srg)

---
 srg/database/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srg/database/__main__.py b/srg/database/__main__.py
index 445980e..c3b3916 100644
--- a/srg/database/__main__.py
+++ b/srg/database/__main__.py
@@ -1,5 +1,5 @@
 from srg.database import list_problems, get_solutions, draw
-from srg import util
+from srg import utils
 import sys
 from pprint import pprint
 
@@ -17,7 +17,7 @@ except ValueError:
 if v is None:
     pprint(list_problems())
 else:
-    util.assert_arg(v,k,l,u)
+    utils.assert_srg(v,k,l,u)
     if cmd == 'list':
         pprint(get_solutions(v,k,l,u))
     elif cmd == 'draw':
-- 
2.43.0


From 145ba23480e627b7b78ec2aaa8a568358f9e4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 2/9] fix: elimination dropped contradictory equations 0 = b,
 so unsolvable systems yielded candidates

---
 srg/gauss_elim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index d2b1726..561253c 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -6,6 +6,8 @@ from . import srg
 
 
 def _remove_zerokeys(h: list) -> None:
+    if any(k == 0 and v != 0 for k, i, v in h):
+        raise srg.NoSolution('no unknown left in an equation whose right hand side is nonzero')
     hnz = [(k, i, v) for k, i, v in h if k > 0]
     h.clear()
     h += hnz
-- 
2.43.0


From 20e73b484e55306fdc9bdf906a1e5388df9dd932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 3/9] fix: packed row/column keys lost bits beyond 64 rows or
 columns, so the search merged different columns and lost graphs (80,78,76,78)

---
 srg/gauss_elim.py | 4 ++--
 srg/unique.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index 561253c..7e2223c 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -89,9 +89,9 @@ def _encode(A: np.array, b: np.array) -> list:
     R, C = A.shape
     assert b.size == R, f'{b.size} != {R}'
 
-    _sum = A[:, -1].copy().astype(int)
+    _sum = A[:, -1].copy().astype(object)  # exact integers, C can exceed the 64 bits of an int
     for c in reversed(range(C - 1)):
-        delta = A[:, c].astype(int) << (C - 1 - c)
+        delta = A[:, c].astype(object) << (C - 1 - c)
         _sum += delta
 
     return list(zip(_sum, range(R), b))
diff --git a/srg/unique.py b/srg/unique.py
index 4240a68..db82557 100644
--- a/srg/unique.py
+++ b/srg/unique.py
@@ -13,7 +13,7 @@ def _encode(A: np.array) -> list:
     :return: array([7, 7, 5, 5, 3, 3, 1], dtype=int16)
     '''
     R, C = A.shape
-    _A = A.astype(int)
+    _A = A.astype(object)  # exact integers, R can exceed the 64 bits of an int
     _sum = _A[-1, :]
     for r in reversed(range(R - 1)):
         _sum += _A[r, :] << (R - 1 - r)
-- 
2.43.0


From 0af0da7d4dd2f9f1dabdc64afaf234fec20fb175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 4/9] fix: python -m srg abbreviated answers of 32 or more
 vertices with '...'

---
 srg/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/__main__.py b/srg/__main__.py
index aec011f..415d803 100644
--- a/srg/__main__.py
+++ b/srg/__main__.py
@@ -7,6 +7,7 @@ from . import utils
 from . import solver
 from . import sorter
 import sys
+import numpy as np
 
 
 if __name__ == '__main__':
@@ -20,6 +21,7 @@ if __name__ == '__main__':
     s = SRG(solver._seed(v, k, l, u))
     ansgen = solver.solve(s)
     ans :list = sorter.sort(ansgen)
+    np.set_printoptions(threshold=sys.maxsize)  # never abbreviate an answer with ...
     pprint.green('*********** answers *************')
     for ans in ans:
         pprint.green(ans)
-- 
2.43.0


From be1d720014c5aa0b8aecb1e30c73168db307c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 5/9] fix: maximize crashed on a graph whose first vertex is
 adjacent to all others

---
 srg/sorter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srg/sorter.py b/srg/sorter.py
index b547696..77ae559 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -16,6 +16,7 @@ class AdjMat:
 
     def sort(self):
         first_zero_index = self._sort(0, (1, self.v))
+        if first_zero_index is None: return  # vertex 0 is adjacent to all others, nothing to divide
         si = SortInstruct(row=0, colrange=(1, self.v), div_index=first_zero_index)
         q = deque()
         q.append(si)
-- 
2.43.0


From 71e61074c9e118c5cfe9c36cbb4cf7e32f29369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 6/9] fix: solve failed on a seed that is already complete
 (2,1,0,0)

---
 srg/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srg/solver.py b/srg/solver.py
index 628bfea..0c7072c 100644
--- a/srg/solver.py
+++ b/srg/solver.py
@@ -229,6 +229,9 @@ def advance(s : SRG) -> Iterator[SRG]:
     return list(map(s.append_and_return_new, ansgen_arr))
 
 def solve(srg : SRG):
+    if srg.solved():  # the two seed rows are the whole graph, v = 2
+        yield srg.current_matrix
+        return
     lst = advance(srg)
     lst_done, lst_undone = partition_by_done(lst)
     yield from [s.current_matrix for s in lst_done]
-- 
2.43.0


From dc499e74cedfeb8d89d07ce5bc98e70582adc7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 7/9] fix: counts of 128 and more overflowed int8, so large
 problems crashed or lost graphs (280,139,138,0)

---
 srg/srg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/srg/srg.py b/srg/srg.py
index 3beb61a..7861565 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -4,10 +4,10 @@
 import numpy as np
 from functools import partial
 
-array = partial(np.array, dtype=np.int8)
-ones = partial(np.ones, dtype=np.int8)
-zeros = partial(np.zeros, dtype=np.int8)
-identity = partial(np.identity, dtype=np.int8)
+array = partial(np.array, dtype=np.int64)
+ones = partial(np.ones, dtype=np.int64)
+zeros = partial(np.zeros, dtype=np.int64)
+identity = partial(np.identity, dtype=np.int64)
 
 class NoSolution(Exception): pass
 
-- 
2.43.0


From 03486a914e86d8ee4dd323f8ab3691f3bd6fa0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 8/9] fix: determinant of a conference graph was computed in
 floats, wrong from (37,18,8,9) on

---
 srg/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srg/utils.py b/srg/utils.py
index 8370ccc..0f6fee5 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -22,6 +22,9 @@ def conference(v: int, k: int, l: int, u: int):
     return 2 * k + (v - 1) * (l - u)
 
 def determinant(v: int, k: int, l: int, u: int):
+    if conference(v, k, l, u) == 0:  # eigenvalues can be irrational, but the product of each pair is u - k
+        return k * (u - k) ** ((v - 1) // 2)
+
     prod = 1
     for e, m in eig(v, k, l, u):
         prod *= e ** m
-- 
2.43.0


From 2061ca8465b48b2fa9c1f08d4c3f56e5cd355801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:27 +0000
Subject: [PATCH 9/9] fix: refuse a partial answer whose positions are out of
 order

---
 srg/srg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/srg.py b/srg/srg.py
index 7861565..c48e290 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -19,7 +19,7 @@ class Answer:
         assert np.array_equal(value.shape, location.shape)
         if location.size > 0:
             assert location[0] == 0
-            assert all(np.diff(location)), f'location is not sorted: {location}'
+            assert all(np.diff(location) > 0), f'location is not sorted: {location}'
             assert location[-1] < len
 
         self._v = value
-- 
2.43.0

