From 5d67febd9c0af62480ad880a8d2bf013eb87f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 1/7] fix: accept default and one-shot conditioning collections
 in get_reachable_nodes

---
 cdmir/graph/digraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/graph/digraph.py b/cdmir/graph/digraph.py
index 0aff389..48a7a5c 100644
--- a/cdmir/graph/digraph.py
+++ b/cdmir/graph/digraph.py
@@ -35,6 +35,9 @@ class DiGraph(Graph):
 
         '''
 
+        # z may be any iterable (also a one-shot iterator) and is read several times below.
+        z = set() if z is None else set(z)
+
         # Phase I: Insert all ancestors of z into a
         node_l_queue = deque(z)
         a = set()
-- 
2.43.0


From d65b545325deed184ab8aaef58457625fa204a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 2/7] fix: Meek rule 3 must require the two middle nodes to be
 non-adjacent

---
 cdmir/graph/pdag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index ea0bac7..57f342c 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -101,6 +101,8 @@ class PDAG(Graph):
                         continue
                     if not (self.is_fully_undirected(node_u, node_x) and self.is_fully_directed(node_x, node_w)):
                         continue
+                    if self.is_connected(node_v, node_x):
+                        continue
                     self.remove_edge(node_u, node_w)
                     self.add_edge(Edge(node_u, node_w, Mark.Tail, Mark.Arrow))
                     if verbose:
-- 
2.43.0


From 25fa294fda5d32b6acd559d3bc5be8373a030584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 3/7] fix: Meek rule 4 must require a directed chain into the
 oriented edge

---
 cdmir/graph/pdag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index 57f342c..d950cc4 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -118,7 +118,7 @@ class PDAG(Graph):
             for node_v in self.nodes:
                 if node_v in [node_u, node_w]:
                     continue
-                if not (self.is_fully_undirected(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
+                if not (self.is_fully_directed(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
                     continue
                 for node_x in self.nodes:
                     if node_x in [node_u, node_v, node_w]:
-- 
2.43.0


From 3ade00b1bc3c1f1d06981b5eb32c2a976f9bb727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 4/7] fix: ConditionalIndependentTest accepts any iterable and
 Dsep no conditioning set

itest built its cache key from the conditioning collection before using it, so a
one-shot iterator was empty by the time the statistic was computed; the wrong
answer was then remembered.  Dsep.cal_stats raised TypeError without one.
---
 cdmir/utils/independence/basic_independence.py | 2 ++
 cdmir/utils/independence/dsep.py               | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cdmir/utils/independence/basic_independence.py b/cdmir/utils/independence/basic_independence.py
index c47af65..125a9ed 100644
--- a/cdmir/utils/independence/basic_independence.py
+++ b/cdmir/utils/independence/basic_independence.py
@@ -36,6 +36,8 @@ class ConditionalIndependentTest(object):
         return self.itest(x_id, y_id, z_ids)
 
     def itest(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
+        if z_ids is not None:
+            z_ids = list(z_ids)  # an iterator must survive building the key
         key = _get_cache_key(x_id, y_id, z_ids)
         if self.cache.get(key):
             value = self.cache[key]
diff --git a/cdmir/utils/independence/dsep.py b/cdmir/utils/independence/dsep.py
index e1fdc1c..ace840e 100644
--- a/cdmir/utils/independence/dsep.py
+++ b/cdmir/utils/independence/dsep.py
@@ -11,7 +11,7 @@ class Dsep(ConditionalIndependentTest):
         self.true_graph = true_graph
 
     def cal_stats(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
-        zs_name = [self.var_names[z_id] for z_id in z_ids]
+        zs_name = [self.var_names[z_id] for z_id in (z_ids if z_ids is not None else [])]
         if self.true_graph.is_d_separate(self.var_names[x_id], self.var_names[y_id], zs_name):
             return 1.0, 1.0 #相关
         else:
-- 
2.43.0


From 237dbb912933ce9b944028f817a80a3b1f1afa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 5/7] fix: local score cache distinguishes the parents
 themselves

The key was the text of the parent collection: generators print as their address
and large arrays are abbreviated, so scores of other parents were returned.
---
 cdmir/utils/local_score/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/_base.py b/cdmir/utils/local_score/_base.py
index 0c6257d..9932128 100644
--- a/cdmir/utils/local_score/_base.py
+++ b/cdmir/utils/local_score/_base.py
@@ -16,7 +16,8 @@ class BaseLocalScoreFunction(object):
         self.cache_dict = dict()
 
     def _score(self, i: int, parent_i: Iterable[int], score_function):
-        dict_key = hash(str((i, parent_i)))
+        parent_i = list(parent_i)  # an iterator must survive building the key
+        dict_key = (i, tuple(parent_i))
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
-- 
2.43.0


From 6d5a063b150d1e677747c1146e00a6a3829cc7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 6/7] fix: kernel caches distinguish the data and parameters
 themselves

Keys were the text of the arrays, which numpy abbreviates, so matrices of other
data were returned; PolynomialKernel bypassed its key with degree and const.
---
 cdmir/utils/kernel/_base.py      | 14 ++++++++++++--
 cdmir/utils/kernel/gaussian.py   |  2 +-
 cdmir/utils/kernel/polynomial.py |  6 +++---
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/cdmir/utils/kernel/_base.py b/cdmir/utils/kernel/_base.py
index 9721f68..1b66cd7 100644
--- a/cdmir/utils/kernel/_base.py
+++ b/cdmir/utils/kernel/_base.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from numpy import eye, ndarray, shape
+from numpy import asarray, eye, ndarray, shape
 from numpy.linalg import pinv
 
 
@@ -13,7 +13,7 @@ class BaseKernel(object):
         return self.__kernel(xs, ys, self.__kernel_func)
 
     def __kernel(self, xs: ndarray, ys: ndarray, kernel_func, *args, **kwargs):
-        dict_key = hash(str((xs, ys)))
+        dict_key = (self._data_key(xs), self._data_key(ys))
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
@@ -22,6 +22,16 @@ class BaseKernel(object):
 
         return res
 
+    @staticmethod
+    def _data_key(data: ndarray):
+        """
+        Cache key of one argument: two arguments share it only if they hold the same values in the same shape
+        """
+        if data is None:
+            return None
+        data = asarray(data)
+        return data.shape, data.dtype.str, data.tobytes()
+
     def __kernel_func(self, data_x: ndarray, data_y: ndarray):
         raise NotImplementedError()
 
diff --git a/cdmir/utils/kernel/gaussian.py b/cdmir/utils/kernel/gaussian.py
index 7640fca..5055ff4 100644
--- a/cdmir/utils/kernel/gaussian.py
+++ b/cdmir/utils/kernel/gaussian.py
@@ -30,7 +30,7 @@ class GaussianKernel(BaseKernel):
         if self.width_strategy != self.WidthStrategyEnum.manual:
             self.__update_kernel_width_by_width_strategy(self.width_strategy, xs)
 
-        dict_key = hash(str((xs, ys, self.width)))  # add width to cache
+        dict_key = (self._data_key(xs), self._data_key(ys), self.width)  # add width to cache
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
diff --git a/cdmir/utils/kernel/polynomial.py b/cdmir/utils/kernel/polynomial.py
index 2848be9..e06a1c8 100644
--- a/cdmir/utils/kernel/polynomial.py
+++ b/cdmir/utils/kernel/polynomial.py
@@ -16,14 +16,14 @@ class PolynomialKernel(BaseKernel):
         return pow(self.const + x.dot(y.T), self.degree)#const是加减上的调整，degree是控制多项式的次数
 
     def __kernel(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        dict_key = hash(str((xs, ys, self.degree, self.const)))  # add 'degree' and 'const' to cache
+        dict_key = (self._data_key(xs), self._data_key(ys), self.degree, self.const)  # add 'degree' and 'const' to cache
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
-            res = self.__kernel(xs, ys) #Plan B:改成 res = self.__kernel_func(xs,ys)
+            res = self.__kernel_func(xs, ys)
             self.cache_dict[dict_key] = res
 
         return res
 
     def __call__(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        return self._BaseKernel__kernel(xs, ys, self.__kernel_func) #Plan A：把self.__kernel改成return self._BaseKernel__kernel(xs, ys, self.__kernel_func)
+        return self.__kernel(xs, ys)
-- 
2.43.0


From 44a760cb7f9d6d6f36ebef87e31c254e54a67031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:26 +0000
Subject: [PATCH 7/7] fix: adapter converts a named frame to an array and
 passes positional arguments on

---
 cdmir/utils/adapters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdmir/utils/adapters.py b/cdmir/utils/adapters.py
index 8e5a785..fa7d4db 100644
--- a/cdmir/utils/adapters.py
+++ b/cdmir/utils/adapters.py
@@ -9,11 +9,12 @@ def data_form_converter_for_class_method(func):
         if var_names is None:
             if type(data) == DataFrame:
                 var_names = list(data.columns)
-                data = data.to_numpy()
             else:
                 var_names = [i for i in range(0, n)]
         else:
             assert len(var_names) == n
-        return func(self=self, data=data, var_names=var_names, *args, **kwargs)
+        if type(data) == DataFrame:
+            data = data.to_numpy()
+        return func(self, data, var_names, *args, **kwargs)
 
     return wrapper
-- 
2.43.0

