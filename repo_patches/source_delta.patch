From fdd5aa577ce0f41781b1539d0ec9be2f18228d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 01/23] fix: derivative rules of H for zero and traced tangents

egrad with respect to an argument other than x raised UnboundLocalError for utfc, and
differentiating H through a traced tangent (jit of a chained derivative, egrad of a jitted
function, jacfwd/grad with respect to x, vmap of a multivariate derivative) raised errors.
---
 src/tfc/mtfc.py | 13 +++++--------
 src/tfc/utfc.py | 23 +++++++++--------------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 910dbe3..332b425 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -615,15 +615,12 @@ class mtfc:
         def H_jvp(arg_vals, arg_tans, d: tuple[int, ...] = d0, full: bool = False):
             n = len(arg_vals)
             flat = len(arg_vals[0].shape) == 1
-            dim0 = arg_vals[0].shape[0]
-            if full:
-                dim1 = self.basisClass.numBasisFuncFull
-            else:
-                dim1 = self.basisClass.numBasisFunc
-            out_tans = np.zeros((dim0, dim1))
+            out = Hjax(*arg_vals, d=d, full=full)
+            out_tans = np.zeros_like(out)
             for k in range(n):
                 if not (type(arg_tans[k]) is ad.Zero):
-                    flag = onp.any(arg_tans[k] != 0)
+                    # The values of traced tangents are not known, so they must always be propagated.
+                    flag = isinstance(arg_tans[k], core.Tracer) or onp.any(arg_tans[k] != 0)
                     if flag:
                         dark = tuple(d[j] + 1 if k == j else d[j] for j in range(len(d)))
                         if flat:
@@ -632,7 +629,7 @@ class mtfc:
                             )
                         else:
                             out_tans += Hjax(*arg_vals, d=dark, full=full) * arg_tans[k]
-            return (Hjax(*arg_vals, d=d, full=full), out_tans)
+            return (out, out_tans)
 
         ad.primitive_jvps[H_p] = H_jvp
 
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index b00afda..595c337 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -361,21 +361,16 @@ class utfc:
         def H_jvp(arg_vals, arg_tans, d: uint = 0, full: bool = False):
             x = arg_vals[0]
             dx = arg_tans[0]
-            if not (dx is ad.Zero):
-                flag = onp.any(dx != 0)
-                if flag:
-                    if len(dx.shape) == 1:
-                        out_tans = Hjax(x, d=d + 1, full=full) * onp.expand_dims(dx, 1)
-                    else:
-                        out_tans = Hjax(x, d=d + 1, full=full) * dx
+            out = Hjax(x, d=d, full=full)
+            # Concrete tangents that are all zero are skipped. The values of traced tangents
+            # are not known, so they must always be propagated.
+            if type(dx) is ad.Zero or not (isinstance(dx, core.Tracer) or onp.any(dx != 0)):
+                out_tans = np.zeros_like(out)
+            elif len(dx.shape) == 1:
+                out_tans = Hjax(x, d=d + 1, full=full) * np.expand_dims(dx, 1)
             else:
-                dim0 = x.shape[0]
-                if full:
-                    dim1 = self.basisClass.m
-                else:
-                    dim1 = self.basisClass.m - self.basisClass.numC
-                out_tans = np.zeros((dim0, dim1))
-            return (Hjax(x, d=d, full=full), out_tans)
+                out_tans = Hjax(x, d=d + 1, full=full) * dx
+            return (out, out_tans)
 
         ad.primitive_jvps[H_p] = H_jvp
 
-- 
2.43.0


From 16d8ba96fa8b8bb11eeb0418deca0d042363169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 02/23] fix: LsClass.run without the timer

It called an undefined name. It also added the solution to the caller's zXi in place when zXi
was a TFCDict.
---
 src/tfc/utils/TFCUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index d445595..7bc9af4 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1036,11 +1036,11 @@ class LsClass:
             return zXi, stop - start
 
         else:
-            zXi += ls(zXi, *args)
+            xi = self._ls(zXi, *args)
 
             self._compiled = True
 
-            return zXi
+            return zXi + xi
 
 
 def nlls_id_print(it: int, x, end: str = "\n"):
-- 
2.43.0


From bd1343425a1574cf4cbb2d65fdc3270c01758c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 03/23] fix: constant_arg_nums in any order

pe mixed up the arguments unless constant_arg_nums was ascending, and LS, LsClass, NLLS and
NllsClass reversed the caller's list, so that using it a second time failed.
---
 src/tfc/utils/TFCUtils.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 7bc9af4..992f62a 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -233,9 +233,8 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
     """
 
     # Reorder to put knowns first, then unknowns
-    order = [k for k in range(len(args))]
-    for k in constant_arg_nums:
-        order.insert(0, order.pop(k))
+    known = [k % len(args) for k in constant_arg_nums]
+    order = known + [k for k in range(len(args)) if k not in known]
     reorder = np.argsort(np.array(order))
     dark = tuple(args[k] for k in order)
 
@@ -861,9 +860,7 @@ def LS(
         ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     ls = jit(ls)
@@ -988,9 +985,7 @@ class LsClass:
             ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         self._ls = jit(ls)
@@ -1229,9 +1224,7 @@ def NLLS(
         res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     if body is None:
@@ -1428,9 +1421,7 @@ class NllsClass:
             res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         if body is None:
-- 
2.43.0


From def5c769ac877a9c37f91eb8146bf28d13bbcb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:58 +0000
Subject: [PATCH 04/23] fix: LsClass.run with the timer adds the solution to
 the caller's zXi in place

---
 src/tfc/utils/TFCUtils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 992f62a..1fd07db 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1026,9 +1026,7 @@ class LsClass:
             start = timer()
             xi = self._ls(zXi, *args).block_until_ready()
             stop = timer()
-            zXi += xi
-
-            return zXi, stop - start
+            return zXi + xi, stop - start
 
         else:
             xi = self._ls(zXi, *args)
-- 
2.43.0


From af2036136a82fb11f37216808b28009005121f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:58 +0000
Subject: [PATCH 05/23] fix: use the cond given to NLLS and NllsClass

It was always replaced by the default termination criteria.
---
 src/tfc/utils/TFCUtils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 1fd07db..e4dfb13 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1176,6 +1176,8 @@ def NLLS(
     else:
         dictFlag = False
 
+    userCond = cond
+
     def cond(val):
         return np.all(
             np.array(
@@ -1187,6 +1189,9 @@ def NLLS(
             )
         )
 
+    if userCond is not None:
+        cond = userCond
+
     if J is None:
         if dictFlag:
             if isinstance(xiInit, TFCDictRobust):
@@ -1371,6 +1376,8 @@ class NllsClass:
         else:
             self._dictFlag = False
 
+        userCond = cond
+
         def cond(val):
             return np.all(
                 np.array(
@@ -1382,6 +1389,9 @@ class NllsClass:
                 )
             )
 
+        if userCond is not None:
+            cond = userCond
+
         if J is None:
             if self._dictFlag:
                 if isinstance(xiInit, TFCDictRobust):
-- 
2.43.0


From df1b5b457ea96dac19b36517f59d26a61a4d6e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:30 +0000
Subject: [PATCH 06/23] fix: TFCDict and TFCDictRobust with numpy arrays

+ and - changed the left operand in place when it held numpy arrays, a numpy array operand was
silently ignored, and a TFCDictRobust of numpy arrays could not be converted or used with LS.
---
 src/tfc/utils/TFCUtils.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index e4dfb13..8bfd354 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -445,7 +445,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] += o[self._slices[k]]
@@ -468,7 +468,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] -= o[self._slices[k]]
@@ -491,11 +491,11 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
-        elif isinstance(o, np.ndarray):
+                out[key] = out[key] + o[key]
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]]
+                out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]]
         return out
 
     def __sub__(self, o: TFCDictAddable) -> "TFCDict":
@@ -515,11 +515,11 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+                out[key] = out[key] - o[key]
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]]
+                out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]]
         return out
 
 
@@ -555,7 +555,10 @@ class TFCDictRobust(OrderedDict):
         """
         Function that creates slices for each of the keys in the dictionary.
         """
-        if all(isinstance(value, np.ndarray) for value in self.values()):
+        if all(
+            isinstance(value, np.ndarray) or isinstance(value, onp.ndarray)
+            for value in self.values()
+        ):
             arrLen = 0
             self._slices = [
                 slice(0, 0, 1),
@@ -652,7 +655,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -675,7 +678,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -698,11 +701,11 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
-        elif isinstance(o, np.ndarray):
+                out[key] = out[key] + o[key]
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]].reshape(self[self._keys[k]].shape)
         return out
 
     def __sub__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -722,11 +725,11 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+                out[key] = out[key] - o[key]
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]].reshape(self[self._keys[k]].shape)
         return out
 
 
-- 
2.43.0


From 558fc0e53234890853c7ff76fca00673d8dc0c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:30 +0000
Subject: [PATCH 07/23] fix: TFCDict and TFCDictRobust after keys are set,
 deleted or reordered

Only update refreshed the record of the keys and their slices, so that conversions and sums
left out entries after, e.g., d[key] = value.
---
 src/tfc/utils/TFCUtils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 8bfd354..64ef3de 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -353,6 +353,8 @@ class TFCDict(OrderedDict):
         """
         Function that creates slices for each of the keys in the dictionary.
         """
+        self._keys = list(self.keys())
+        self._nKeys = len(self._keys)
         if all(
             isinstance(value, np.ndarray) or isinstance(value, onp.ndarray)
             for value in self.values()
@@ -412,6 +414,7 @@ class TFCDict(OrderedDict):
         TFCDict
             JAX array as a TFCDict
         """
+        self.getSlices()
         arr = arr.flatten()
         return TFCDict(zip(self._keys, [arr[self._slices[k]] for k in range(self._nKeys)]))
 
@@ -442,6 +445,7 @@ class TFCDict(OrderedDict):
         self : TFCDict
             A copy of self after adding in the values from o.
         """
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
@@ -465,6 +469,7 @@ class TFCDict(OrderedDict):
         self : TFCDict
             A copy of self after subtracting the values from o.
         """
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
@@ -488,6 +493,7 @@ class TFCDict(OrderedDict):
         out : TFCDict
             A TFCDict with values = self + o.
         """
+        self.getSlices()
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
@@ -512,6 +518,7 @@ class TFCDict(OrderedDict):
         self : TFCDict
             A TFCDict with values = self - o.
         """
+        self.getSlices()
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
@@ -555,6 +562,8 @@ class TFCDictRobust(OrderedDict):
         """
         Function that creates slices for each of the keys in the dictionary.
         """
+        self._keys = list(self.keys())
+        self._nKeys = len(self._keys)
         if all(
             isinstance(value, np.ndarray) or isinstance(value, onp.ndarray)
             for value in self.values()
@@ -614,6 +623,7 @@ class TFCDictRobust(OrderedDict):
         TFCDictRobust
             JAX array as a TFCDictRobust
         """
+        self.getSlices()
         arr = arr.flatten()
         return TFCDictRobust(
             zip(
@@ -652,6 +662,7 @@ class TFCDictRobust(OrderedDict):
         self : TFCDictRobust
             A copy of self after adding in the values from o.
         """
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
@@ -675,6 +686,7 @@ class TFCDictRobust(OrderedDict):
         self : TFCDictRobust
             A copy of self after subtracting the values from o.
         """
+        self.getSlices()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
@@ -698,6 +710,7 @@ class TFCDictRobust(OrderedDict):
         out : TFCDictRobust
             A TFCDictRobust with values = self + o.
         """
+        self.getSlices()
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
@@ -722,6 +735,7 @@ class TFCDictRobust(OrderedDict):
         self : TFCDictRobust
             A TFCDictRobust with values = self - o.
         """
+        self.getSlices()
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-- 
2.43.0


From a171f7b6505e2c063d1f961aae423002db4126f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:01 +0000
Subject: [PATCH 08/23] fix: pe with pytree constants and with outputs that are
 constant

Constant arguments that are pytrees, and functions with an output that depends only on the
constant arguments, raised errors.
---
 src/tfc/utils/TFCUtils.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 64ef3de..4407e44 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -260,33 +260,27 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
                         )
                     )[0]
                 else:
-                    return PartialVal.known(a)
+                    return [PartialVal.known(leaf) for leaf in tree_flatten(a)[0]]
 
             part_args = []
             for k, a in enumerate(dark):
-                temp = get_arg(a, k >= num_args_remove)
-                if isinstance(temp, list):
-                    part_args += temp
-                else:
-                    part_args.append(temp)
+                part_args += get_arg(a, k >= num_args_remove)
             part_args = tuple(part_args)
 
             # Create jaxpr
             wrap = lu.wrap_init(f, debug_info=debug_info(f.__name__, f, [], {}))
             _, in_tree = tree_flatten((dark, {}))
             wrap_flat, out_tree = flatten_fun(wrap, in_tree)
-            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args)
-
-            # Create new, partially evaluated function
-            if out_tree().num_leaves == 1 and out_tree().num_nodes == 1:
-                # out_tree() is PyTreeDef(*), so just return the value. Since eval_jaxpr returns a list,
-                # this is just value [0]
-                f_removed = lambda *args: eval_jaxpr(jaxpr, const, *tree_flatten((*args, {}))[0])[0]
-            else:
-                # Use out_tree() to reshape the args correctly.
-                f_removed = lambda *args: out_tree().unflatten(
-                    eval_jaxpr(jaxpr, const, *tree_flatten((*args, {}))[0])
+            jaxpr, out_pvals, const = trace_to_jaxpr_nounits(wrap_flat, part_args)
+
+            # Create new, partially evaluated function. The jaxpr only returns the outputs that
+            # depend on the remaining arguments: the values of the others are already known.
+            def f_removed(*args):
+                unknown = iter(eval_jaxpr(jaxpr, const, *tree_flatten((*args, {}))[0]))
+                return out_tree().unflatten(
+                    [p.get_known() if p.is_known() else next(unknown) for p in out_pvals]
                 )
+
             return f_removed
         else:
             return f_orig
-- 
2.43.0


From a80bc4a0036adb197e4b01a4a801dedf426e7db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:33 +0000
Subject: [PATCH 09/23] fix: Python backend's Fourier series and ReLU bases

The Fourier series dropped the imaginary part of complex inputs. The univariate ReLU returned
a transposed matrix for derivatives of order two and higher, and the multivariate ReLU raised an
error for first derivatives. The error for a wrong number of dimensions used an undefined name.
---
 src/tfc/utils/BF_Py.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 8556a15..e345d9a 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -547,7 +547,7 @@ class FS(BasisFunc):
             Basis function values.
         """
         N = np.size(z)
-        F = np.zeros((N, self._m))
+        F = np.zeros((N, self._m), dtype=z.dtype)
         if d == 0:
             F[:, 0] = 1.0
             for k in range(1, self._m):
@@ -711,7 +711,7 @@ class ELMReLU(ELM):
         elif d == 1:
             return self._w * np.where(self._w * z + self._b > 0.0, 1.0, 0.0)
         else:
-            return np.zeros((self._m, z.size))
+            return np.zeros((z.size, self._m))
 
 
 class ELMSigmoid(ELM):
@@ -1028,7 +1028,7 @@ class nBasisFunc(BasisFunc):
         N = x.shape[1]
         if x.shape[0] != self._dim:
             raise ValueError(
-                f"Incorrect dimension for x. Expected {self._dim} but got {z.shape[1]}."
+                f"Incorrect dimension for x. Expected {self._dim} but got {x.shape[0]}."
             )
 
         # Convert to basis function domain
@@ -1357,7 +1357,7 @@ class nELM(nBasisFunc):
         # Check dimensions
         if x.shape[0] != self._dim:
             raise ValueError(
-                f"Incorrect dimension for x. Expected {self._dim} but got {z.shape[1]}."
+                f"Incorrect dimension for x. Expected {self._dim} but got {x.shape[0]}."
             )
 
         # Convert to basis function domain
@@ -1421,7 +1421,7 @@ class nELMReLU(nELM):
         if dorder > 1:
             zeroFlag = True
         elif dorder == 1:
-            ind = np.where(d == 1)[0][0]
+            ind = np.where(np.asarray(d) == 1)[0][0]
 
         if zeroFlag:
             # Derivative order is high enough that everything is zeros
-- 
2.43.0


From 9330ca500c191adb2a6bd95721091a969329c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:33 +0000
Subject: [PATCH 10/23] fix: non-contiguous arrays given to the C++ basis
 functions

The domain, the indices to remove, and the weights and biases of strided arrays were read as if
the arrays were contiguous.
---
 src/tfc/utils/BF_Py.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index de1a403..462eff2 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -6,7 +6,7 @@
 namespace py = pybind11;
 
 template <typename T> void add1DInit(auto &c) {
-    c.def(py::init([](double x0, double xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](double x0, double xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (nC.ndim() != 1) {
                   throw py::value_error("The \"nC\" input array must be 1-dimensional.");
               }
@@ -28,7 +28,7 @@ template <typename T> void add1DInit(auto &c) {
 }
 
 template <typename T> void addNdInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0, py::array_t<double, py::array::c_style | py::array::forcecast> xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -57,7 +57,7 @@ template <typename T> void addNdInit(auto &c) {
 }
 
 template <typename T> void addNdElmInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0, py::array_t<double, py::array::c_style | py::array::forcecast> xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -175,7 +175,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](ELM &self) {
@@ -189,7 +189,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> w) { self.setW(w.data(), w.size()); });
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> w) { self.setW(w.data(), w.size()); });
 
     auto PyELMSigmoid = py::class_<ELMSigmoid, ELM>(m, "ELMSigmoid");
     add1DInit<ELMSigmoid>(PyELMSigmoid);
@@ -293,7 +293,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](nELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](nELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](nELM &self) {
-- 
2.43.0


From a9396be2541d28b05d2586b58832a80ffcffc2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:33 +0000
Subject: [PATCH 11/23] fix: nC given as a numpy array to utfc and to mtfc with
 an ELM basis

---
 src/tfc/mtfc.py | 2 +-
 src/tfc/utfc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 332b425..5725949 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -201,7 +201,7 @@ class mtfc:
         if basis in self._elm_classes:
             if isinstance(nC, int):
                 self.nC = onp.arange(nC, dtype=onp.int32)
-            elif isinstance(nC, np.ndarray):
+            elif isinstance(nC, (np.ndarray, onp.ndarray)):
                 self.nC = cast(onp.ndarray, nC.astype(onp.int32))
             elif isinstance(nC, list):
                 self.nC = onp.array(nC, dtype=np.int32)
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 595c337..cb73033 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -97,7 +97,7 @@ class utfc:
 
         if isinstance(nC, int):
             self.nC: npt.NDArray = onp.arange(nC, dtype=onp.int32)
-        elif isinstance(nC, np.ndarray):
+        elif isinstance(nC, (np.ndarray, onp.ndarray)):
             self.nC: npt.NDArray = cast(npt.NDArray, nC.astype(onp.int32))
         elif isinstance(nC, list):
             self.nC: npt.NDArray = np.array(nC, dtype=np.int32)
-- 
2.43.0


From ef843cc11e2b3e0f61362f9d4e841fc104af6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:08 +0000
Subject: [PATCH 12/23] fix: a list of one basis function to remove in a
 dimension of mtfc

A dimension given as, e.g., [3] removed the first three basis functions, as the integer 3 does,
rather than basis function 3.
---
 src/tfc/mtfc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 5725949..91c2723 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -244,7 +244,7 @@ class mtfc:
                         nCk = np.array(cast(IntListOrArray, nC)[k]).flatten()
                     else:
                         nCk = np.array([cast(IntListOrArray, nC)[k]]).flatten()
-                    if nCk.shape[0] == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         maxk = nCk[0]
                     else:
                         maxk = nCk.shape[0]
@@ -263,7 +263,7 @@ class mtfc:
                     else:
                         nCk = onp.array([cast(IntListOrArray, nC)[k]]).flatten()
                     j = nCk.shape[0]
-                    if j == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         nCk = onp.arange(nCk[0])
                         j = nCk.shape[0]
                     if j < nCmax:
-- 
2.43.0


From e3d21aba08349e861ccd7747f2ed984c4d948abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:45 +0000
Subject: [PATCH 13/23] fix: tfc printing of derivatives, substitutions and
 function arguments

---
 src/tfc/utils/CeSolver.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 015c523..f52af0d 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -1,3 +1,4 @@
+import re
 import sympy as sp
 from sympy import Expr
 from sympy.core.function import AppliedUndef
@@ -432,6 +433,9 @@ class TfcPrinter(PythonCodePrinter):
         str
             String to print.
         """
+        if isinstance(expr, AppliedUndef):
+            # Print the arguments with this printer, so that they are valid code too
+            return expr.func.__name__ + "(" + ", ".join(self._print(arg) for arg in expr.args) + ")"
         return self._print(str(expr))
 
     def _print_Subs(self, subs: Expr) -> str:
@@ -449,10 +453,13 @@ class TfcPrinter(PythonCodePrinter):
             String to print.
         """
         expr, old, new = subs.args
-        expr = self._print(expr)
-        for k in range(len(old)):
-            expr = expr.replace(self._print(old[k]), self._print(new[k]))
-        return expr
+        # Arguments of a function need no parentheses
+        form = "{}" if isinstance(expr, (sp.Derivative, AppliedUndef)) else "({})"
+        expr = form.format(self._print(expr))
+        # Replace whole names only, and all of them at once
+        values = {self._print(o): form.format(self._print(n)) for o, n in zip(old, new)}
+        names = "|".join(re.escape(name) for name in values)
+        return re.sub(rf"(?<![\w.])({names})(?!\w)", lambda m: values[m.group()], expr)
 
     def _print_Derivative(self, expr: Expr) -> str:
         """
@@ -484,15 +491,10 @@ class TfcPrinter(PythonCodePrinter):
         # expressions then use self._print() instead of str() or latex().
         # See the example of nested modulo below in the custom printing
         # method section.
-        name = function.func.__name__
-        parenthesis_counter = 0
-        ret = ""
+        ret = function.func.__name__
         for pv in position_vars:
             for _ in range(pv[1]):
-                ret += self._print("egrad(" + name + "," + str(pv[0]))
-                parenthesis_counter += 1
-        for _ in range(parenthesis_counter):
-            ret += self._print(")")
-        ret += "(" + "".join(self._print(i[0]) for i in vars) + ")"
+                ret = "egrad(" + ret + "," + str(pv[0]) + ")"
+        ret += "(" + ", ".join(self._print(i) for i in function_vars) + ")"
 
         return ret
-- 
2.43.0


From 5ed7a16e4c2d3bbdd886f8b7a1776154bb101960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:22 +0000
Subject: [PATCH 14/23] fix: latex tables of integers and of long rows

---
 src/tfc/utils/Latex.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/Latex.py b/src/tfc/utils/Latex.py
index 819cac1..6084d7d 100644
--- a/src/tfc/utils/Latex.py
+++ b/src/tfc/utils/Latex.py
@@ -65,17 +65,18 @@ class table:
             Array formatted as a latex table.
         """
         out = str()
+        formatter = {"all": lambda x: form % x}
         if rowHeader is None:
             if np.size(arrIn.shape) == 2:
                 numRows = arrIn.shape[0]
                 for k in range(numRows):
                     out += np.array2string(
-                        arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
+                        arrIn[k, :], separator=" & ", formatter=formatter, threshold=arrIn.size
                     ).strip("[]")
                     out += "\\\\\n\\hline\n"
             else:
                 out += np.array2string(
-                    arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
+                    arrIn[k, :], separator=" & ", formatter=formatter, threshold=arrIn.size
                 ).strip("[]")
                 out += "\\\\\n"
         else:
@@ -84,12 +85,12 @@ class table:
                 for k in range(numRows):
                     out += rowHeader[k] + " & "
                     out += np.array2string(
-                        arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
+                        arrIn[k, :], separator=" & ", formatter=formatter, threshold=arrIn.size
                     ).strip("[]")
                     out += "\\\\\n\\hline\n"
             else:
                 out += np.array2string(
-                    arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
+                    arrIn[k, :], separator=" & ", formatter=formatter, threshold=arrIn.size
                 ).strip("[]")
                 out += "\\\\\n"
         return out.rstrip()
-- 
2.43.0


From 784fc4c01c211a4f60d12631c986c0e0d2926376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:22 +0000
Subject: [PATCH 15/23] fix: MakePlot titles when some are None

---
 src/tfc/utils/MakePlot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/MakePlot.py b/src/tfc/utils/MakePlot.py
index 2b646d5..baf19a5 100644
--- a/src/tfc/utils/MakePlot.py
+++ b/src/tfc/utils/MakePlot.py
@@ -178,9 +178,10 @@ class MakePlot:
             count = 0
             for j in range(n[0]):
                 for k in range(n[1]):
-                    if titles[j, k] is None:
+                    if xlabs[j, k] is None:
                         continue
-                    self.ax[count].set_title(titles[j, k])
+                    if titles[j, k] is not None:
+                        self.ax[count].set_title(titles[j, k])
                     count += 1
 
         # Set tight layout for the figure
-- 
2.43.0


From 5415145ed40d8457c7cb431166b0a123f966d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:42 +0000
Subject: [PATCH 16/23] fix: Plotly labels and views of subplots in a grid

---
 src/tfc/utils/PlotlyMakePlot.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index b820a81..4563ddc 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -159,6 +159,7 @@ class MakePlot:
                     "The titles provided are not of a valid type. Please provide valid titles."
                 )
 
+        self._numCols = xlabs.shape[1]
         if int(np.prod(xlabs.shape)) != 1:
             from plotly.subplots import make_subplots
 
@@ -203,13 +204,13 @@ class MakePlot:
                                 title=zlabs[row, col], exponentformat="e"
                             )
                         else:
-                            self.fig["layout"]["scene" + str(row + col + 1)]["xaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["xaxis"].update(
                                 title=xlabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["scene" + str(row + col + 1)]["yaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["yaxis"].update(
                                 title=ylabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["scene" + str(row + col + 1)]["zaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["zaxis"].update(
                                 title=zlabs[row, col], exponentformat="e"
                             )
 
@@ -222,10 +223,10 @@ class MakePlot:
                                 title=ylabs[row, col], exponentformat="e"
                             )
                         else:
-                            self.fig["layout"]["xaxis" + str(row + col + 1)].update(
+                            self.fig["layout"]["xaxis" + str(row * xlabs.shape[1] + col + 1)].update(
                                 title=xlabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["yaxis" + str(row + col + 1)].update(
+                            self.fig["layout"]["yaxis" + str(row * xlabs.shape[1] + col + 1)].update(
                                 title=ylabs[row, col], exponentformat="e"
                             )
 
@@ -262,17 +263,17 @@ class MakePlot:
                             "backgroundcolor"
                         ] = self._backgroundColor
                     else:
-                        self.fig["layout"]["scene" + str(row + col + 1)]["xaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["xaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
                         )
-                        self.fig["layout"]["scene" + str(row + col + 1)]["yaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["yaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
                         )
-                        self.fig["layout"]["scene" + str(row + col + 1)]["zaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["zaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
@@ -604,7 +605,7 @@ class MakePlot:
             ]
         )
         if row and col:
-            sceneNum = row + col - 1
+            sceneNum = (row - 1) * self._numCols + col
             if sceneNum == 1:
                 sceneNum = ""
             else:
-- 
2.43.0


From d79a712c4237eb5ee0f2522736b930b5a654f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:42 +0000
Subject: [PATCH 17/23] fix: Plotly color scales without data

---
 src/tfc/utils/PlotlyMakePlot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index 4563ddc..1d0ca00 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -697,14 +697,14 @@ class MakePlot:
             cmin = np.inf
             for k in dark:
                 if k.__class__.__name__ in types:
-                    if data in k:
+                    if data in k and k[data] is not None:
                         kmax = k[data].max()
                         kmin = k[data].min()
 
-                    if kmax > cmax:
-                        cmax = kmax
-                    if kmin < cmin:
-                        cmin = kmin
+                        if kmax > cmax:
+                            cmax = kmax
+                        if kmin < cmin:
+                            cmin = kmin
 
         colorScaleUpdate = {}
         if not cmax is None:
@@ -714,5 +714,5 @@ class MakePlot:
 
         for k in dark:
             if k.__class__.__name__ in types:
-                if data in k:
+                if data is None or data in k:
                     k.update(colorScaleUpdate)
-- 
2.43.0


From aa47e489ce355a9cb02b8bcaabdfd6f720e890c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:31 +0000
Subject: [PATCH 18/23] fix: constrained expression after its switching
 functions are set

---
 src/tfc/utils/CeSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index f52af0d..3bfedb3 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -155,6 +155,7 @@ class CeSolver:
         """
         self._phi = phi
         self._phi_stale = False
+        self._ce_stale = True
 
     @property
     def alpha(self) -> sp.Matrix:
-- 
2.43.0


From c94a689a260bc9e68c566f82e577b44c7bfa6920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:23 +0000
Subject: [PATCH 19/23] fix: block_until_ready of TFCDict and TFCDictRobust
 after keys are deleted

---
 src/tfc/utils/TFCUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 4407e44..65633bc 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -422,7 +422,7 @@ class TFCDict(OrderedDict):
         TFCDict
             This TFCDict.
         """
-        self[self._keys[0]].block_until_ready()
+        next(iter(self.values())).block_until_ready()
         return self
 
     def __iadd__(self, o: TFCDictAddable) -> "TFCDict":
@@ -639,7 +639,7 @@ class TFCDictRobust(OrderedDict):
         TFCDictRobust
             This TFCDictRobust
         """
-        self[self._keys[0]].block_until_ready()
+        next(iter(self.values())).block_until_ready()
         return self
 
     def __iadd__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
-- 
2.43.0


From 42db3e7ac247a87983e0f5a9323ba820ca36000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:30 +0000
Subject: [PATCH 20/23] fix: HTML.WriteFile in the current directory

---
 src/tfc/utils/Html.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/Html.py b/src/tfc/utils/Html.py
index 18015c5..50b9605 100644
--- a/src/tfc/utils/Html.py
+++ b/src/tfc/utils/Html.py
@@ -44,8 +44,9 @@ class HTML:
 
     def WriteFile(self):
         """This function writes the HTML file text to a file."""
-        if not os.path.exists(os.path.dirname(self._outFile)):
-            os.makedirs(os.path.dirname(self._outFile))
+        outDir = os.path.dirname(self._outFile)
+        if outDir and not os.path.exists(outDir):
+            os.makedirs(outDir)
         out = open(self._outFile, "w")
         out.write(self.GenerateHtml())
         out.close()
-- 
2.43.0


From 43b6fbbf9b2593037a29898b7f24cad142fb10cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:01 +0000
Subject: [PATCH 21/23] fix: latex tables with brackets in the number format

---
 src/tfc/utils/Latex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/Latex.py b/src/tfc/utils/Latex.py
index 6084d7d..8423778 100644
--- a/src/tfc/utils/Latex.py
+++ b/src/tfc/utils/Latex.py
@@ -72,12 +72,12 @@ class table:
                 for k in range(numRows):
                     out += np.array2string(
                         arrIn[k, :], separator=" & ", formatter=formatter, threshold=arrIn.size
-                    ).strip("[]")
+                    )[1:-1]
                     out += "\\\\\n\\hline\n"
             else:
                 out += np.array2string(
                     arrIn[k, :], separator=" & ", formatter=formatter, threshold=arrIn.size
-                ).strip("[]")
+                )[1:-1]
                 out += "\\\\\n"
         else:
             if np.size(arrIn.shape) == 2:
@@ -86,12 +86,12 @@ class table:
                     out += rowHeader[k] + " & "
                     out += np.array2string(
                         arrIn[k, :], separator=" & ", formatter=formatter, threshold=arrIn.size
-                    ).strip("[]")
+                    )[1:-1]
                     out += "\\\\\n\\hline\n"
             else:
                 out += np.array2string(
                     arrIn[k, :], separator=" & ", formatter=formatter, threshold=arrIn.size
-                ).strip("[]")
+                )[1:-1]
                 out += "\\\\\n"
         return out.rstrip()
 
-- 
2.43.0


From 73467708d843c938e23707fa4e1130be3cfaa5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:12 +0000
Subject: [PATCH 22/23] fix: Plotly color scales of data given as lists

---
 src/tfc/utils/PlotlyMakePlot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index 1d0ca00..0187231 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -698,8 +698,8 @@ class MakePlot:
             for k in dark:
                 if k.__class__.__name__ in types:
                     if data in k and k[data] is not None:
-                        kmax = k[data].max()
-                        kmin = k[data].min()
+                        kmax = np.max(k[data])
+                        kmin = np.min(k[data])
 
                         if kmax > cmax:
                             cmax = kmax
-- 
2.43.0


From 273f0b27d15fdcadef4e9c52093f52b6340e4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:12 +0000
Subject: [PATCH 23/23] fix: Python backend's sigmoid and swish derivatives are
 NaN for large arguments

---
 src/tfc/utils/BF_Py.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index e345d9a..416e50e 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -1,5 +1,6 @@
 import numpy as np
 import jax.numpy as jnp
+from jax.nn import sigmoid
 from abc import ABC, abstractmethod
 from tfc.utils.tfc_types import uint, Number, JaxOrNumpyArray
 from typing import Callable, Tuple
@@ -734,7 +735,7 @@ class ELMSigmoid(ELM):
 
         from tfc.utils import egrad
 
-        f = lambda x: 1.0 / (1.0 + jnp.exp(-self._w * x - self._b))
+        f = lambda x: sigmoid(self._w * x + self._b)
 
         def Recurse(
             dark: Callable[[JaxOrNumpyArray], jnp.ndarray], d: uint, dCurr: uint = 0
@@ -848,7 +849,7 @@ class ELMSwish(ELM):
 
         from tfc.utils import egrad
 
-        f = lambda x: (self._w * x + self._b) / (1.0 + jnp.exp(-self._w * x - self._b))
+        f = lambda x: (self._w * x + self._b) * sigmoid(self._w * x + self._b)
 
         def Recurse(
             dark: Callable[[JaxOrNumpyArray], jnp.ndarray], d: uint, dCurr: uint = 0
@@ -1555,7 +1556,7 @@ class nELMSigmoid(nELM):
 
         from tfc.utils import egrad
 
-        f = lambda *x: 1.0 / (1.0 + jnp.exp(-jnp.dot(jnp.hstack(x), self._w) - self._b))
+        f = lambda *x: sigmoid(jnp.dot(jnp.hstack(x), self._w) + self._b)
 
         z = jnp.split(z, z.shape[1], axis=1)
 
@@ -1604,7 +1605,7 @@ class nELMSwish(nELM):
 
         def f(*x):
             dark = jnp.dot(jnp.hstack(x), self._w) + self._b
-            return dark / (1.0 + jnp.exp(-dark))
+            return dark * sigmoid(dark)
 
         z = jnp.split(z, z.shape[1], axis=1)
 
-- 
2.43.0

