From 05616aeb3453e1818a006dc16a7d3cfed99858df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:22 +0000
Subject: [PATCH 001/142] fix: multi-key ismember with an empty haystack raised
 instead of reporting no match

---
 riptable/rt_numpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 85406da..609ca69 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1322,6 +1322,10 @@ def ismember(
 
             a, b = _ismember_align_multikey(a, b)
 
+            # nothing can be found in an empty haystack
+            if all(len(x) == 0 for x in b):
+                return full(len(a[0]), False, dtype=bool), full(len(a[0]), INVALID_DICT[np.dtype(np.int32).num], dtype=np.int32)
+
             return rc.MultiKeyIsMember32((a,), (b,), hint_size)
         else:
             raise ValueError(
-- 
2.43.0


From 8e33aa1df430dd3013b54110fb4ae1654f546f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:16 +0000
Subject: [PATCH 002/142] fix: outer merge truncated keys found only in the
 right Dataset to the left key width

---
 riptable/rt_merge.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 1dc93c9..586bcfe 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -45,6 +45,7 @@ from .rt_numpy import (
     empty,
     empty_like,
     full,
+    get_common_dtype,
     hstack,
     ismember,
     isnan,
@@ -3164,8 +3165,12 @@ def merge(
         elif how == "outer":
             in_right_not_in_left = mask_andi(isnan(p_left), isnotnan(p_right))
             for field in intersection_cols:
-                out[field] = left[field][p_left]
-                out[field][in_right_not_in_left] = right[field][p_right[in_right_not_in_left]]
+                left_keys = left[field][p_left]
+                # widen when needed so the keys found only in the right Dataset are not truncated
+                if type(left_keys) is FastArray and left_keys.dtype != right[field].dtype:
+                    left_keys = left_keys.astype(get_common_dtype(left_keys, right[field]))
+                left_keys[in_right_not_in_left] = right[field][p_right[in_right_not_in_left]]
+                out[field] = left_keys
         else:
             raise ValueError(f"The value '{how}' is not valid for the 'how' parameter.")
 
-- 
2.43.0


From ece7af9d5cd37e5645d167951cc61d05e6258d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:06 +0000
Subject: [PATCH 003/142] fix: inner merge2 with keep for the left side raised
 when every left key is invalid

---
 riptable/rt_merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 586bcfe..e2a6054 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1150,6 +1150,9 @@ def _build_left_fancyindex(
     # where M is the multiplicity of that row's key within the *right* Grouping. If the key K from the left Grouping
     # doesn't exist in the right Grouping, those rows get a repeat value of '1' (so they're kept as-is).
     left_ikey = _get_keep_ikey(left_keygroup, keep_left)
+    if len(left_ikey) == 0:
+        # Every key in the left Dataset is invalid, so there are no rows to repeat.
+        return empty(0, dtype=left_keygroup.ikey.dtype)
     left_repeats = right_group_multiplicity_as_left[left_ikey]
     assert all(isnotnan(left_repeats)), "Invalid entries found in 'left_repeats'."
     # assert not hasanynan(left_repeats), "Invalid entries found in 'left_repeats'."
-- 
2.43.0


From 2336d7feab3dc7344819846b302cee5be5954893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:20 +0000
Subject: [PATCH 004/142] fix: nearest merge_asof on unsigned on-columns
 compared wrapped-around distances

---
 riptable/rt_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index e2a6054..0ceee16 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -4185,7 +4185,8 @@ class _AsOfMerge:
                 right_on_col if right_fancyindex_backward is None else right_on_col[right_fancyindex_backward]
             )
             f_forward_closer |= isnan(right_on_backward)
-            backward_distance = abs(left_on_backward - right_on_backward)
+            # a backward match never lies after the left value; no abs() needed (and unsigned types can't go negative)
+            backward_distance = left_on_backward - right_on_backward
             del left_on_backward
             del right_on_backward
             f_forward_closer |= isnan(backward_distance)
@@ -4194,7 +4195,7 @@ class _AsOfMerge:
             right_on_forward = (
                 right_on_col if right_fancyindex_forward is None else right_on_col[right_fancyindex_forward]
             )
-            forward_distance = abs(left_on_forward - right_on_forward)
+            forward_distance = right_on_forward - left_on_forward
 
             f_forward_closer |= forward_distance < backward_distance
             del backward_distance
-- 
2.43.0


From 6ceea4155fd820bfaf80e635de00323236ea3bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:09 +0000
Subject: [PATCH 005/142] fix: TimeSpan tolerance was always rejected by
 merge_asof2

---
 riptable/rt_merge_asof.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index 1b19f6c..0fe2535 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -1166,8 +1166,10 @@ def _validate_and_normalize_tolerance(
     # If 'tolerance' is a value of a signed type, don't allow negative values;
     # the 'as-of' logic won't work correctly if given a negative value.
     negative_tol_errmsg = "Negative tolerance values not supported for as-of merges."
-    if isinstance(tolerance, float) or (
-        isinstance(tolerance, np.generic) and np.issubdtype(tolerance.dtype, np.floating)
+    # N.B. TimeSpanScalar derives from np.float64 but has its own conversion below.
+    if not isinstance(tolerance, TimeSpanScalar) and (
+        isinstance(tolerance, float)
+        or (isinstance(tolerance, np.generic) and np.issubdtype(tolerance.dtype, np.floating))
     ):
         if tolerance < 0 or isnan(tolerance):
             raise ValueError(negative_tol_errmsg)
@@ -1215,7 +1217,7 @@ def _validate_and_normalize_tolerance(
             # the difference of two DateTimeNano values to be a TimeSpanScalar), but due to
             # the internal representation of these types we need a DateTimeNanoScalar for the
             # JIT-compiled code to work correctly.
-            return DateTimeNanoScalar(tolerance.nanoseconds)
+            return DateTimeNanoScalar(int(tolerance))
 
         else:
             raise ValueError(
-- 
2.43.0


From 918481fa277a825bdae01a7df32a16dc9e0ecb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:48 +0000
Subject: [PATCH 006/142] fix: GroupBy.as_categorical and get_group paired
 sorted keys with unsorted bins

---
 riptable/rt_groupby.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_groupby.py b/riptable/rt_groupby.py
index ae01641..de6e0cf 100644
--- a/riptable/rt_groupby.py
+++ b/riptable/rt_groupby.py
@@ -424,7 +424,8 @@ class GroupBy(GroupByOps):
         """
 
         idx = self.grouping.ikey
-        gbkeys = self.gbkeys
+        # bins in ikey refer to the unsorted keys
+        gbkeys = self.grouping.uniquedict
 
         return TypeRegister.Categorical(idx, _from_categorical=gbkeys, sort_gb=self._sort_display)
 
-- 
2.43.0


From a21bc9a0e0cbac3af9b434ca13a43e96e7682a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:03 +0000
Subject: [PATCH 007/142] fix: grouping accessors reported the filter of an
 earlier request after a filtered operation

---
 riptable/rt_grouping.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 2a55df1..68cc052 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1655,7 +1655,7 @@ class Grouping:
         igroup
         """
         # only categoricals do not have an iFirstKey
-        if self.iGroupReverse is None:
+        if self.iGroupReverse is None or self._packedwithfilter:
             self.iGroupReverse = rc.ReverseShuffle(self.igroup)
         return self.iGroupReverse
 
@@ -1675,6 +1675,9 @@ class Grouping:
         ifirstgroup
         igroupreverse
         """
+        if self._packedwithfilter:
+            # the last packing left out the rows of that request's filter
+            self.pack_by_group()
         if self.nCountGroup is None:
             if len(self.ikey):
                 self.nCountGroup = rc.BinCount(self.ikey, self.unique_count + 1)
@@ -2375,14 +2378,8 @@ class Grouping:
 
         # if we did not pack by filter, and we are alerady packed, and there is not a filter...
         # do nothing
-        if self._packed and filter is None:
-            if not self._packedwithfilter:
-                # keep lack of filter
-                return
-
-            if not mustrepack:
-                # keep existing filter
-                return
+        if self._packed and filter is None and not self._packedwithfilter:
+            return
 
         self._packed = True
 
@@ -2653,7 +2650,8 @@ class Grouping:
 
         # check if they want full array returned (not a reduction)
         if not isreduce:
-            reverse_back = self.igroupreverse
+            # the packing may be filtered, so do not use igroupreverse (always unfiltered)
+            reverse_back = rc.ReverseShuffle(self.iGroup)
 
         # check if passing multiple arrays at same time
         if tups == 1:
@@ -3096,7 +3094,9 @@ class Grouping:
 
         for i in bins:
             # groupby ikey uses base-1 indexing
-            filter_group = self.as_filter(i)
+            # the packing may be filtered, so do not use as_filter (always unfiltered)
+            first = self.iFirstGroup[i]
+            filter_group = self.iGroup[first : first + self.nCountGroup[i]]
             if Grouping.DebugMode:
                 print("index", i, "filter is", filter_group)
 
-- 
2.43.0


From c6ac46dc2ab1ca28070c99d4965135aae95dacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:03 +0000
Subject: [PATCH 008/142] fix: groupby operations on a Categorical sliced with
 a step read the wrong codes

---
 riptable/rt_grouping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 68cc052..1c1617d 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1538,6 +1538,9 @@ class Grouping:
                 raise ValueError("Internal error generating ikey")
 
             # enum path needs to go through hash, lazy-eval here
+        elif not self._iKey.flags.c_contiguous:
+            # e.g. a Categorical sliced with a step: the low-level group routines ignore strides
+            return self._iKey.copy()
         return self._iKey
 
     # ---------------------------------------------------------------
-- 
2.43.0


From 846537f90ec64187ab0b8bfcc1384fbf3586cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:03 +0000
Subject: [PATCH 009/142] fix: Grouping.regroup of a groupby took its uniques
 from the wrong rows

---
 riptable/rt_grouping.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 1c1617d..ba4f952 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2106,10 +2106,8 @@ class Grouping:
             # maybe put this in a more general copy routine?
             # need an example that isn't from categorical
             if src._grouping_dict is not None:
-                if sortidx is None:
-                    dst._grouping_dict = src._grouping_dict.copy()
-                else:
-                    dst._grouping_dict = {k: v[sortidx] for k, v in src._grouping_dict.items()}
+                # these are the rows, not the uniques: the new iFirstKey picks the uniques out of them
+                dst._grouping_dict = src._grouping_dict.copy()
             elif src._grouping_unique_dict is not None:
                 if sortidx is None:
                     dst._grouping_unique_dict = src._grouping_unique_dict.copy()
-- 
2.43.0


From 009241f5d8bc9e6b3fd411040e7386f051821a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:57 +0000
Subject: [PATCH 010/142] fix: copying a base-0 Categorical turned it into a
 base-1 Categorical with other labels

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index bb110d5..b441fba 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1759,6 +1759,7 @@ class Categorical(GroupByOps, FastArray):
                                 index,
                                 categories=_from_categorical.categories_as_dict(),
                                 sort_display=_sort_gb,
+                                base_index=base_index,
                                 categorical=True,
                                 dtype=dtype,
                                 _trusted=True,
-- 
2.43.0


From f7deaaafa3c39a122069a2d8e2c974f525cbdf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:57 +0000
Subject: [PATCH 011/142] fix: Categorical.set_valid on a mapped Categorical
 overwrote the original's codes

---
 riptable/rt_categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index b441fba..d4c8d38 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3273,6 +3273,8 @@ class Categorical(GroupByOps, FastArray):
         if self.isenum:
             ikey = self._fa
             if filter is not None:
+                # the codes of the original must survive
+                ikey = ikey.copy()
                 if filter.dtype.char == "?":
                     # set the invalids (technically filtering not allowed on an enum)
                     ikey[~filter] = ikey.inv
-- 
2.43.0


From 9472fdd0930b0d52cf9755191c6ea84c3df12a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:57 +0000
Subject: [PATCH 012/142] fix: comparing a Categorical with a numpy float
 scalar compared its codes

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index d4c8d38..5a96098 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4714,7 +4714,7 @@ class Categorical(GroupByOps, FastArray):
         func = None
 
         # COMPARE TO INTEGER (numeric array categoricals will get handled differently)
-        if isinstance(other, (int, np.integer, float, np.float64)):
+        if isinstance(other, (int, np.integer, float, np.floating)):
             # error will be raised if doesn't match categories
             if not self.isenum:
                 other = self._categories_wrap.get_category_index(other)
-- 
2.43.0


From a114ae80ebb42e826152a123855e1cfa0f3f9353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:57 +0000
Subject: [PATCH 013/142] fix: expanding a numeric Categorical turned filtered
 rows into ordinary values of a wider type

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 5a96098..5cdfcc3 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6215,7 +6215,8 @@ class Categorical(GroupByOps, FastArray):
         # This is because the 'hstack' function will return an array of the same type as
         # the first/leftmost argument it's given, and we want this function to return
         # an array of the same type as 'arr' so the type information is preserved.
-        invarr = np.array([inv])
+        # keep the dtype of numeric categories, otherwise the sentinel turns into an ordinary value of a wider type
+        invarr = np.array([inv], dtype=None if arr.dtype.char in "US" else arr.dtype)
         invarr = TypeRegister.newclassfrominstance(invarr, arr)
 
         # TODO: Revisit after upgrading to numpy 1.17+ -- this might be a better approach compared to
-- 
2.43.0


From 3358df1134a8e3e14d35bce8db6767b406ce39b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:57 +0000
Subject: [PATCH 014/142] fix: Categorical.shrink with misc labelled rows with
 an unused new category

---
 riptable/rt_grouping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index ba4f952..2dad49b 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2015,8 +2015,9 @@ class Grouping:
             if misc is not None:
                 # everything already 0 stays 0
                 zeromask = self.catinstance == 0
-                maxvalue = max(idx) + 1
+                maxvalue = len(newcats[0]) + 1
                 # everything filtered out gets MISC
+                idx = idx.astype(int_dtype_from_len(maxvalue), copy=False)
                 idx[~mask] = maxvalue
                 idx = hstack([0, idx, maxvalue])
                 oldcats = newcats
-- 
2.43.0


From a1ffa71de55f154e426be5b169057a5362508935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:22 +0000
Subject: [PATCH 015/142] fix: mask assignment on a reversed or strided array
 wrote to the wrong elements

---
 riptable/rt_fastarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index e65efcc..cdc487f 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1289,6 +1289,10 @@ class FastArray(np.ndarray):
                     # re-test support, just to be sure.
                     is_unsupported = self._is_not_supported(newvalue)
 
+                # the array and the mask are walked as they are, e.g. a reversed view is left to numpy
+                if self._is_not_supported(self) or self._is_not_supported(fld):
+                    is_unsupported = True
+
                 # if supported, call our setitem, it will return False if it fails
                 if not is_unsupported:
                     if rc.SetItem(self, fld, newvalue):
-- 
2.43.0


From eeaec16bfd31740df4208ceec1266799545512ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:22 +0000
Subject: [PATCH 016/142] fix: Categorical.mapping_replace left the replaced
 name behind

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 5cdfcc3..f750dd7 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1083,6 +1083,7 @@ class Categories:
                 elif how == "replace":
                     if value is not None:
                         if exists is not False:
+                            del self.str2intdict[exists]
                             self.int2strdict[code] = value
                             self.str2intdict[value] = code
                         else:
-- 
2.43.0


From d94f981859b2c98a7b4c2fbf3d88ed5ff074331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:22 +0000
Subject: [PATCH 017/142] fix: Categorical.category_replace truncated longer
 names and changed copies

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index f750dd7..9f2eec7 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1164,7 +1164,8 @@ class Categories:
                     if len(new_exists) == 1:
                         return replace_idx + self.base_index, new_exists[0]
                     else:
-                        self._list[replace_idx] = new_value
+                        # new array: copies share the old one, and the new value may be longer
+                        self._list = hstack([self._list[:replace_idx], new_value, self._list[replace_idx + 1 :]])
                         self._ordered = False
                         self._sorted = False
                 else:
-- 
2.43.0


From 04893440755c3bf2ec1852b6abb2ca5b3ffa3509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:22 +0000
Subject: [PATCH 018/142] fix: Categorical.fill_invalid(inplace) kept stale
 groups

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 9f2eec7..0ce3ddb 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -2994,6 +2994,7 @@ class Categorical(GroupByOps, FastArray):
                         f"Inplace fill invalid cannot be different dtype than existing categorical. Got {dtype} vs. {len(self.dtype)}"
                     )
                 self._fa.fill(0)
+                self.groupby_reset()
             else:
                 arr = full(shape, 0, dtype=dtype)
                 return type(self)(arr, _from_categorical=self.grouping)
-- 
2.43.0


From 97afb6fbd6b02ded83d25c0e47945bd1b6612d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:29 +0000
Subject: [PATCH 019/142] fix: grouping of a mapped Categorical kept the old
 mapping after an edit

---
 riptable/rt_categorical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 0ce3ddb..fcd69dd 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4855,6 +4855,9 @@ class Categorical(GroupByOps, FastArray):
         """
         # gb_keychain to be replaced by label generating methods
         self._gb_keychain = None
+        if self.isenum:
+            # an edited mapping is seen by both
+            self.grouping._enum = self._categories_wrap.grouping._enum
         # will be marked dirty / repaired by
         # internal set / modify methods in Grouping
         self.grouping.set_dirty()
-- 
2.43.0


From 645bc6a97d17aa49e83000819df47d94e11c295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:29 +0000
Subject: [PATCH 020/142] fix: adding or replacing a category left the grouping
 of the Categorical with the old categories

---
 riptable/rt_categorical.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index fcd69dd..d2c0bd4 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3876,7 +3876,9 @@ class Categorical(GroupByOps, FastArray):
         New category will always be added to the end of the category array.
         """
         if self._locked is False:
+            self._check_category_room()
             self._categories_wrap._array_edit(value, how="add")
+            self._categories_edited()
             self._ordered = False
             self._sorted = False
         else:
@@ -3912,6 +3914,7 @@ class Categorical(GroupByOps, FastArray):
                 replace_mask = self._fa == fix_index_tup[0]
                 self._fa[replace_mask] = fix_index_tup[1]
             else:
+                self._categories_edited()
                 self._ordered = False
                 self._sorted = False
         else:
@@ -4344,10 +4347,14 @@ class Categorical(GroupByOps, FastArray):
 
             else:
                 # add the category, clean up the index array afterwards
+                if self._auto_add_categories:
+                    self._check_category_room()
                 fix_index = self._categories_wrap._possibly_add_categories(value)
                 if fix_index is not None:
-                    # must be inplace to change self
-                    self._fa[:] = fix_index[self._fa - self.base_index] + self.base_index
+                    self._categories_edited()
+                    # must be inplace to change self, rows without a category (filtered) stay as they are
+                    valid = self._fa >= self.base_index
+                    self._fa[valid] = fix_index[self._fa[valid] - self.base_index] + self.base_index
                 # convert string to int index
                 # we know value will have an exact match
                 value = self._categories_wrap.get_category_match_index(value)
@@ -4848,6 +4855,19 @@ class Categorical(GroupByOps, FastArray):
 
     # ------POSSIBLY LAZY EVALUATIONS FOR GROUPBY-----------------
     # ------------------------------------------------------------
+    def _check_category_room(self):
+        """The codes are edited inplace: refuse a category whose code their dtype cannot hold."""
+        if self.unique_count + self.base_index > np.iinfo(self.dtype).max:
+            raise ValueError(f"Cannot add a category: no codes of type {self.dtype} are left.")
+
+    def _categories_edited(self):
+        """The grouping holds the unique categories as well: bring it in step with the edited category array."""
+        cats = self._categories_wrap
+        for grouping in (cats.grouping, self.grouping):
+            grouping._grouping_unique_dict = {name: cats._list for name in grouping.uniquedict}
+            grouping._unique_count = len(cats._list)
+            grouping.Ordered = cats._ordered
+
     def groupby_reset(self):
         """
         Resets all lazily evaluated groupby information. The categorical will go back to the state it was in
-- 
2.43.0


From 547767ef22f78f24e0c11debef77d3efe1bfca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:48 +0000
Subject: [PATCH 021/142] fix: Struct.col_map renamed some columns before
 refusing the map

---
 riptable/rt_struct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index ab0537f..b8c3ad7 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3285,6 +3285,12 @@ class Struct:
                 rename_dict, swaps = self._safe_reordering_of_renames(rename_dict)
             else:
                 swaps = []
+            # refuse before anything is renamed
+            for old, new in rename_dict.items():
+                if not self.col_exists(old):
+                    raise ValueError(f"Invalid column to rename: {old!r} cannot rename column that does not exist.")
+                if not self.is_valid_colname(new):
+                    raise ValueError(f"Invalid column name: {new}")
             for old, new in rename_dict.items():
                 self.col_rename(old, new)
             for old, new in swaps:
-- 
2.43.0


From b2c6d5228a2731278c3da89549c104c3b26d065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:48 +0000
Subject: [PATCH 022/142] fix: Struct.col_str_replace raised on a sorted
 Dataset

---
 riptable/rt_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index b8c3ad7..349ceaa 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3795,7 +3795,7 @@ class Struct:
         replaced = self._all_items.item_str_replace(old, new, maxr=max)
         if replaced and self._col_sortlist is not None:
             # fix sorts
-            for i, name in self._col_sortlist:
+            for i, name in enumerate(self._col_sortlist):
                 r = name.replace(old, new, max)
                 if r != name:
                     self._col_sortlist[i] = r
-- 
2.43.0


From c7843719bb34b75e091292fb44c0514ed6e37b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:54 +0000
Subject: [PATCH 023/142] fix: col_str_replace lost a column when two names
 became the same

---
 riptable/rt_itemcontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 7cf5fe1..607f872 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -561,7 +561,7 @@ class ItemContainer:
             if r != item:
                 replace_count += 1
                 # prevent name conflict from overwriting existing column
-                if r in self._items:
+                if r in self._items or r in new_names:
                     raise ValueError(f"Item {r} already existed, cannot make replacement in item name {item}.")
             new_names.append(r)
 
-- 
2.43.0


From 9010daecbdbc9d858da8073d1667a5cd77f730d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:54 +0000
Subject: [PATCH 024/142] fix: a selection or shallow copy shared labels and
 footers with its source

---
 riptable/rt_itemcontainer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 607f872..1f2006f 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -183,6 +183,15 @@ class ItemContainer:
             arr.set_name(name)
             v[0] = arr
 
+    # -----------------------------------------
+    @staticmethod
+    def _copy_item(item):
+        """Copy of an item's list; the attributes (labels, footers ...) belong to one container, the value is shared."""
+        item = item.copy()
+        if item[1] is not None:
+            item[1] = item[1].copy()
+        return item
+
     # -----------------------------------------
     def copy(self, cols=None, deep=False):
         """
@@ -194,10 +203,10 @@ class ItemContainer:
         if cols is None:
             newcontainer._items = self._items.copy()
             for k, v in newcontainer._items.items():
-                newcontainer._items[k] = v.copy()
+                newcontainer._items[k] = self._copy_item(v)
         else:
             for k in cols:
-                newcontainer._items[k] = self._items[k].copy()
+                newcontainer._items[k] = self._copy_item(self._items[k])
         return newcontainer
 
     # -----------------------------------------
@@ -212,13 +221,13 @@ class ItemContainer:
         if cols is None:
             for k, v in self._items.items():
                 # tuple copy
-                v = v.copy()
+                v = self._copy_item(v)
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
         else:
             for k in cols:
                 # tuple copy
-                v = self._items[k].copy()
+                v = self._copy_item(self._items[k])
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
 
-- 
2.43.0


From ce757bac0a01dea1e68dafbe883dfbe22b997525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:19 +0000
Subject: [PATCH 025/142] fix: Dataset.tail(0) returned all rows

---
 riptable/rt_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index c6efa2a..7f4307d 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3041,6 +3041,8 @@ class Dataset(Struct):
             self._nrows = 0
             return self[:0, :]
         rows = min(self._nrows, n)
+        if rows == 0:
+            return self[:0, :]
         return self[-rows:, :]
 
     def dhead(self, n: int = 0) -> None:
-- 
2.43.0


From 311cab59952baa6fd800991e47a344d5736a122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:19 +0000
Subject: [PATCH 026/142] fix: indexing a string array by an unsigned index
 read out of bounds

---
 riptable/rt_ledger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_ledger.py b/riptable/rt_ledger.py
index dc9687f..4b1d3fd 100644
--- a/riptable/rt_ledger.py
+++ b/riptable/rt_ledger.py
@@ -217,6 +217,10 @@ class MathLedger(Struct):
     def _MBGET(cls, *args):
         if cls.Verbose > 1:
             print(f"mbget ledger {args}")
+        values, index = args[:2]
+        if values.dtype.kind in "SU" and index.dtype.kind == "u":
+            # the string kernel reads out of bounds with an unsigned index
+            args = (values, cls._AS_FA_TYPE(index, np.dtype(np.int64).num), *args[2:])
         return cls._FUNNEL_ALL(rc.MBGet, *args)
 
     @classmethod
-- 
2.43.0


From 5dadfc8814974e8d4e2cdf22329be7cc9abc1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 027/142] fix: load SDS files and columns whose names are not
 ASCII

---
 riptable/rt_sds.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 9c0670e..e12ee67 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -195,6 +195,14 @@ def _anypath_to_str(s: AnyPath) -> str:
     return os.fsdecode(s)
 
 
+# ------------------------------------------------------------------
+def _encode_list(items: Optional[Sequence[AnyPath]]) -> Optional[List[bytes]]:
+    """
+    Encode a list of file or item names as bytes, because riptide_cpp only converts ASCII strings.
+    """
+    return None if items is None else [os.fsencode(x) for x in items]
+
+
 # -----------------------------------------------------------------------------------------
 def sds_os(func: Callable, path: AnyPath) -> Any:
     """
@@ -1571,8 +1579,8 @@ def _stack_sds_files(
             filter = None
 
         result = rc.MultiStackFiles(
-            filenames,
-            include=include,
+            _encode_list(filenames),
+            include=_encode_list(include),
             folders=folders,
             filter=filter,
             mask=mask,
@@ -2295,8 +2303,8 @@ def decompress_dataset_internal(
                 # this path checks for just one file.  this file may have been appended to and so contains multple files inside
                 # if we detect the appended file ('StackType'==1), we default to stacking unless a forced stack=False
                 result = rc.MultiPossiblyStackFiles(
-                    filename,
-                    include=include,
+                    _encode_list(filename),
+                    include=_encode_list(include),
                     folders=folders,
                     filter=filter,
                     mask=mask,
@@ -2331,9 +2339,9 @@ def decompress_dataset_internal(
             else:
                 # meta, arrs, meta_tups, fileheader_dict
                 result = rc.MultiDecompressFiles(
-                    filename,
+                    _encode_list(filename),
                     mode,
-                    include=include,
+                    include=_encode_list(include),
                     folders=folders,
                     sections=sections,
                     filter=filter,
-- 
2.43.0


From a6e01ed5d4ef94c1aa640aaf0d4eb8e0f5b90877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 028/142] fix: SDS files of sorted or footed Datasets held
 unnamed arrays (crash on include, wrong sort index)

---
 riptable/rt_struct.py | 43 +++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 349ceaa..953a6b8 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -1182,6 +1182,7 @@ class Struct:
                 "item_meta": [],  # list of special fastarray metadata strings
                 "labels": self.label_get_names(),
                 "_col_sortlist": self._col_sortlist,
+                "_sort_ascending": np.asarray(self._sort_ascending).tolist(),
                 "footers": [],
             }
         )
@@ -1295,18 +1296,10 @@ class Struct:
                 meta_tups.append(t)
                 all_tups.append(t)
 
-        # get sorted row index (Dataset only)
-        if hasattr(self, "get_row_sort_info"):
-            sort_id = self.get_row_sort_info()
-            sort_idx = TypeRegister.SortCache.get_sorted_row_index(*sort_id)
-            if sort_idx is not None:
-                items.append(sort_idx)
-
-        # get footers (currently only implemented for Accum2 result)
+        # the sorted row index and footers are not saved as arrays: a file holding arrays which are not named
+        # in meta_tups cannot be loaded selectively (SortCache rebuilds the index from the saved sort keys)
         if hasattr(self, "_footers"):
-            for k, v in self._footers.items():
-                meta["footers"].append(k)
-                items.append(v)
+            meta["footers"].extend(self._footers)
 
         # test for loading items in order with tuples only
         # TJD remove this by July 2019 since it is no longer checked
@@ -1616,26 +1609,20 @@ class Struct:
         # currently getting removed from root struct only
 
         def load_class_meta(data, arrays, meta):
-            arr_idx = 0
             data.label_set_names(meta["labels"])
 
-            # send the sort index to the SortCache
-            data._col_sortlist = meta.get("_col_sortlist", None)
-            if data._col_sortlist is not None:
-                # if a sorted index exists, it's the last array in the list
-                uid = data._uniqueid
-                sortlist = [data[col] for col in data._col_sortlist]
-                sortidx = arrays[arr_idx]
-                TypeRegister.SortCache.store_sort(uid, sortlist, sortidx, data._sort_ascending)
-                arr_idx += 1
-
-            # attach footers (accum2 operation results)
+            # restore the sort keys; the SortCache rebuilds the index from the loaded rows
+            sortlist = meta.get("_col_sortlist", None)
+            if sortlist is not None and all(col in data for col in sortlist):
+                data._col_sortlist = sortlist
+                ascending = meta.get("_sort_ascending", True)
+                if isinstance(ascending, list):
+                    ascending = TypeRegister.FastArray(ascending)
+                data._sort_ascending = ascending
+
+            # restore the footer rows (accum2 operation results)
             if len(meta["footers"]) > 0:
-                footers = {}
-                for f in meta["footers"]:
-                    footers[f] = arrays[arr_idx]
-                    arr_idx += 1
-                data._footers = footers
+                data._footers = dict.fromkeys(meta["footers"])
 
         # ---- start of method below ------------------------
         if not isinstance(meta, MetaData):
-- 
2.43.0


From 3cb8fa2541693d730735a7670527c94a478c8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:06 +0000
Subject: [PATCH 029/142] fix: copying or slicing a Dataset with an active
 sort_view raised or lost the directions

---
 riptable/rt_dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 7f4307d..7351640 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -709,12 +709,13 @@ class Dataset(Struct):
                 new_sortlist = [_k for _k in self._col_sortlist if _k in ds]
                 if len(new_sortlist) > 0:
                     ds._col_sortlist = new_sortlist
-                    ds._sort_ascending = self.sort_ascending
+                    ds._sort_ascending = self._sort_ascending
             else:
-                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
+                # the ascending flags are kept as an array in reverse key order (see _sort_values)
+                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending[::-1]) if _k in ds]
                 if len(new_sort) > 0:
                     ds._col_sortlist = [x[0] for x in new_sort]
-                    ds._sort_ascending = [x[1] for x in new_sort]
+                    ds._sort_ascending = FastArray([x[1] for x in reversed(new_sort)])
 
             ds._sort_display = self._sort_display
 
-- 
2.43.0


From 4e169b9f5ce217ff09bc18f71e0c8e7c5ee6d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:06 +0000
Subject: [PATCH 030/142] fix: sort_copy of a Dataset with footers raised

---
 riptable/rt_dataset.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 7351640..3c2a5ce 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -4122,11 +4122,8 @@ class Dataset(Struct):
                 newds = type(self)(newdict)
                 newds.label_set_names(self.label_get_names())
 
-                if hasattr(self, "_footers"):
-                    footers = {}
-                    for f, item in self._footers.items():
-                        footers[f] = item.copy()
-                    newds._footers = footers
+                for label, footerdict in self.footer_get_dict().items():
+                    newds.footer_set_values(label, footerdict)
 
                 return newds
 
-- 
2.43.0


From fde6254ece4ad13b81deaa04a80c1f5565804e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:40 +0000
Subject: [PATCH 031/142] fix: uncompressed SDS files lost zero-length arrays
 and items next to nested containers

---
 riptable/rt_sds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index e12ee67..12d6bcd 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -2452,6 +2452,10 @@ def compress_dataset_internal(
     if not isinstance(listarrays, list):
         raise TypeError(f"Input must be list of numpy arrays. Got {type(listarrays)}")
 
+    # uncompressed files cannot hold zero-length arrays or placeholders: they would be missing when the file is loaded
+    if comptype == CompressionType.Uncompressed and any(arr is None or arr.size == 0 for arr in listarrays):
+        comptype = CompressionType.ZStd
+
     # TODO - a gateway check could go here
 
     if sharename is None:
-- 
2.43.0


From dd29874b635c7c9ac92560345354775fbec04e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:39 +0000
Subject: [PATCH 032/142] fix: load_sds(include=...) of a nested Struct
 returned None for the containers not requested

---
 riptable/rt_sds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 12d6bcd..78e7c47 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -3273,6 +3273,12 @@ def _load_sds(
                 elif choice in "Nn":
                     break
 
+    if include is not None:
+        # remove the placeholders of nested containers which were not requested
+        unloaded = [item for item in root_struct if root_struct[item] is None and item not in include]
+        if len(unloaded) > 0:
+            root_struct.col_remove(unloaded)
+
     return root_struct
 
 
-- 
2.43.0


From 9089bdecccacbc976fcbbf3195394016d1192824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:51 +0000
Subject: [PATCH 033/142] fix: a sort view keyed by a strided or reversed
 column raised instead of being shown sorted

---
 riptable/rt_sort_cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_sort_cache.py b/riptable/rt_sort_cache.py
index 5490f28..5e207f5 100644
--- a/riptable/rt_sort_cache.py
+++ b/riptable/rt_sort_cache.py
@@ -33,7 +33,7 @@ class SortCache(object):
         """
         crcvals = []
         for c in sortlist:
-            crcvals.append(crc64(c))
+            crcvals.append(crc64(np.ascontiguousarray(c)))
         cls._cache[uid] = (crcvals, sortidx, len(sortidx), ascending)
 
     @classmethod
@@ -42,7 +42,7 @@ class SortCache(object):
             sortlist = list(sortdict.values())
 
             # perform a crc on known sorted values and remember the crc
-            crcvals = [crc64(vals) for vals in sortlist]
+            crcvals = [crc64(np.ascontiguousarray(vals)) for vals in sortlist]
 
             def _cached():
                 if not (uid in cls._cache):
-- 
2.43.0


From f909b1d8b4c1010a4c171cf690ae0b3a642c41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:51 +0000
Subject: [PATCH 034/142] fix: loading an sds_concat file with exactly four
 arrays failed

---
 riptable/rt_sds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 78e7c47..14ccf13 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -2315,8 +2315,8 @@ def decompress_dataset_internal(
                 if result is None:
                     raise ValueError(f"No data was found in the file {filename} with the specified parameters.")
 
-                # the length of the return result will tell use what type of file this was
-                if len(result) > 0 and len(result[0]) != 4:
+                # a list holds one entry per section, a (tuple like) stacking result comes from an sds_concat file
+                if isinstance(result, tuple):
                     # this is an sds_concat file and we assume it is stacked
                     return _stacked(filename, result, folders)
 
-- 
2.43.0


From e451674d664a445b5925372081812688e9adfca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:43 +0000
Subject: [PATCH 035/142] fix: concatenating Structs placed 2-D arrays side by
 side instead of stacking their rows

---
 riptable/rt_hstack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index c4cb7a7..40b9986 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -374,6 +374,9 @@ def _hstack_struct(struct_list, destroy: bool = False):
 
     # hstack lists of the same type - rt.hstack will route these to the correct routine
     for typename, typedict in alldicts.items():
+        if typename == "Array":
+            # stacked above
+            continue
         for name, itemlist in typedict.items():
             final_dict[name] = hstack(itemlist)
 
-- 
2.43.0


From 2408f96cd91455ca72a4991eab1ac0ea97fd15c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 036/142] fix: Dataset.duplicated(keep='last') kept the wrong
 row of the last group

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 3c2a5ce..2cac33f 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3621,7 +3621,7 @@ class Dataset(Struct):
             result[igroup[ilast]] = False
 
             # set the last one
-            result[lastindex] = False
+            result[igroup[lastindex]] = False
 
         # only return rows that occur once
         elif keep is False:
-- 
2.43.0


From 4d0ead5bdc4249d9205ccb679a4d8f1799d041f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 037/142] fix: bool_to_fancy read the wrong elements of a
 strided or reversed mask

---
 riptable/rt_numpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 609ca69..59bb0ce 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5495,7 +5495,8 @@ def bool_to_fancy(arr: np.ndarray, both: bool = False) -> FastArray:
     """
     if isinstance(arr, np.ndarray):
         if arr.dtype.char == "?":
-            return rc.BooleanToFancy(arr, both=both)
+            # the kernel walks the buffer without looking at strides
+            return rc.BooleanToFancy(np.ascontiguousarray(arr), both=both)
         else:
             raise TypeError(f"Input array must be boolean. Got {arr.dtype}")
     else:
-- 
2.43.0


From bc788f3918bd017de87a0b0cece72aafb0a6f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:20 +0000
Subject: [PATCH 038/142] fix: ismember gave wrong results for strided or
 reversed arrays

---
 riptable/rt_numpy.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 59bb0ce..69e3db6 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1182,6 +1182,11 @@ def _ismember_align_multikey(a, b):
     return a, b
 
 
+def _ascontiguous(arr):
+    """The membership kernels do not look at strides: hand them contiguous memory."""
+    return arr if arr.flags.c_contiguous else arr.copy()
+
+
 @_args_to_fast_arrays("a", "b")
 def ismember(
     a: ArraysOrDataset, b: ArraysOrDataset, h=2, hint_size: int = 0, base_index: int = 0
@@ -1300,7 +1305,12 @@ def ismember(
         # arg5 - a base index
         # arg6 - b base index
         b, f = rc.IsMemberCategoricalFixup(
-            a._fa, b._fa, on_unique.astype(np.int32), int(num_unique_b), a.base_index, b.base_index
+            _ascontiguous(a._fa),
+            _ascontiguous(b._fa),
+            on_unique.astype(np.int32),
+            int(num_unique_b),
+            a.base_index,
+            b.base_index,
         )
         return b, f
 
@@ -1326,6 +1336,8 @@ def ismember(
             if all(len(x) == 0 for x in b):
                 return full(len(a[0]), False, dtype=bool), full(len(a[0]), INVALID_DICT[np.dtype(np.int32).num], dtype=np.int32)
 
+            a = [_ascontiguous(x) for x in a]
+            b = [_ascontiguous(x) for x in b]
             return rc.MultiKeyIsMember32((a,), (b,), hint_size)
         else:
             raise ValueError(
@@ -1389,6 +1401,7 @@ def ismember(
                 b = b.astype(common_type)
 
     # send to fastmath
+    a, b = _ascontiguous(a), _ascontiguous(b)
     if base_index == 1:
         return rc.IsMemberCategorical(a, b, h, hint_size)
     elif base_index is None or base_index == 0:
-- 
2.43.0


From 69a78633329716a22cb7ae3509990f8228fbf640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 039/142] fix: ismember between 64-bit integers and floats
 dropped fractions, so 2.5 was found among 2

---
 riptable/rt_numpy.py | 45 +++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 69e3db6..eaefcc0 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -466,33 +466,40 @@ def _find_lossless_common_array_type(arr1: np.array, arr2: np.array) -> Union[np
     if dtc is not None:
         return dtc
 
-    # Check values to see if all of them can fit in the type of the other.
-    # Only consider coercion from inexact to exact types (simplifies tests).
+    # Check values to see if all of them can fit in another type (invalids stay invalid in all of them).
 
-    def _get_info(dt: np.dtype) -> dict:
-        if np.issubdtype(dt, np.integer):
-            info = np.iinfo(dt)
-            return {"min": info.min, "max": info.max, "exact": True}
-        info = np.finfo(dt)
-        return {"min": info.min, "max": info.max, "exact": False}
-
-    def _can_coerce(arr: np.array, array_info: dict, target_info: dict) -> bool:
-        if not target_info["exact"]:
-            return False
+    def _valid(arr: np.array) -> np.ndarray:
         np_arr = arr.view(np.ndarray)  # use np.ndarray since rt.FA is unreliable at these limits
-        if array_info["min"] < 0 and (np_arr < target_info["min"]).all():
+        if np.issubdtype(np_arr.dtype, np.integer):
+            return np_arr[np_arr != INVALID_DICT[np_arr.dtype.num]]
+        return np_arr[~np.isnan(np_arr)]
+
+    def _fits_float64(arr: np.array) -> bool:
+        np_arr = _valid(arr)
+        return not ((np_arr > 2**53).any() or (np_arr < -(2**53)).any())
+
+    def _fits_integer(arr: np.array, target: np.dtype) -> bool:
+        np_arr = _valid(arr)
+        if len(np_arr) == 0 and len(arr) != 0:
             return False
-        if (np_arr > target_info["max"]).all():
+        info = np.iinfo(target)
+        if (np_arr < info.min).any():
             return False
-        return True
+        if np.issubdtype(np_arr.dtype, np.integer):
+            return not (np_arr > info.max).any()
+        # floats: the upper limit itself is rounded up, and no fraction may be lost
+        return not ((np_arr >= float(info.max)).any() or (np_arr != np.floor(np_arr)).any())
 
-    info1 = _get_info(dt1)
-    info2 = _get_info(dt2)
+    int1 = np.issubdtype(dt1, np.integer)
+    int2 = np.issubdtype(dt2, np.integer)
+
+    if int1 != int2 and _fits_float64(arr1 if int1 else arr2):
+        return np.dtype(np.float64)
 
-    if _can_coerce(arr2, info2, info1):
+    if int1 and _fits_integer(arr2, dt1):
         return dt1
 
-    if _can_coerce(arr1, info1, info2):
+    if int2 and _fits_integer(arr1, dt2):
         return dt2
 
     return None
-- 
2.43.0


From 8eef120f1c6d1f3dcf1a3125362ec3bbf551b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:02 +0000
Subject: [PATCH 040/142] fix: the instant of a daylight savings transition was
 given the offset in force before it

---
 riptable/rt_timezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 50e920a..325e3c8 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -1191,7 +1191,7 @@ class TimeZone:
         # is_dst = (FastArray(np.searchsorted(DST_CUTOFFS, arr)) & 1).astype(bool)
         # is_dst = (rc.BinsToCutsBSearch(arr, cutoffs, 0) & 1).astype(bool)
 
-        is_dst = (searchsorted(cutoffs, arr) & 1).astype(np.bool_)
+        is_dst = (searchsorted(cutoffs, arr, side="right") & 1).astype(np.bool_)
         return is_dst
 
     # ------------------------------------------------------------
-- 
2.43.0


From d28a4cccd51c661cc95ecd652c7ecdbe088eff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:02 +0000
Subject: [PATCH 041/142] fix: DateTimeNano.day_of_month returned the UTC day
 instead of the local day

---
 riptable/rt_datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e549427..992bdad 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3461,8 +3461,8 @@ class DateTimeCommon:
         int32 array
 
         """
-        arr = self._fa
-        year = self._year(arr, fix_dst=True)
+        arr = self._timezone.fix_dst(self._fa)
+        year = self._year(arr)
 
         # subtract the nanos from start of year so all times are in MM-DD HH:MM:SS, etc.
         startyear = arr - self._year_splits[year - 1970]
-- 
2.43.0


From 073b6b5ef24866d456a697794b913d5d8d6e0283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:02 +0000
Subject: [PATCH 042/142] fix: DateTimeNano.date() ignored the offset of zones
 without daylight savings time

---
 riptable/rt_datetime.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 992bdad..ac0fd36 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3280,12 +3280,10 @@ class DateTimeCommon:
 
 
         """
-        if self._timezone._dst_reverse is not None:
-            arr = self._timezone.fix_dst(self._fa)
-            arr = arr - (arr % NANOS_PER_DAY)
-        else:
-            arr = self._fa
-            arr = arr - (arr % NANOS_PER_DAY)
+        arr = self._timezone.fix_dst(self._fa)
+        arr = arr - (arr % NANOS_PER_DAY)
+        # invalid times stay invalid
+        arr = arr * self.isnotnan()
         # from_tz needs to match to_tz (similar to from_matlab_days, except can't force 'GMT' because of DST fixup)
         # return DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz='UTC')
         result = DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz=self._timezone._to_tz)
-- 
2.43.0


From 2d0c860e45fb48070e03016f017b03009e501d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:02 +0000
Subject: [PATCH 043/142] fix: DateTimeNano.minute ignored offsets of a
 fraction of an hour (Asia/Kolkata)

---
 riptable/rt_datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index ac0fd36..f04838d 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3732,10 +3732,10 @@ class DateTimeCommon:
     def _time_fraction(self, modulo, divisor, span=False):
         """
         Internal routine for minute, second, millisecond, microsecond, nanosecond (+span) properties.
-        None of these need to account for timezone.
+        The timezone only matters for the minute, in zones a fraction of an hour away from UTC.
         """
         inv_mask = self.isnan()
-        arr = self._fa % modulo
+        arr = self._timezone.fix_dst(self._fa) % modulo
         if span:
             if isinstance(self, DateTimeNano):
                 result = TypeRegister.TimeSpan(arr)
-- 
2.43.0


From 6633cb8221b64121393e4e13d551ad1e81d9a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:02 +0000
Subject: [PATCH 044/142] fix: Date.seconds_since_epoch overflowed for dates
 after 2038

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index f04838d..0209aef 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -2094,7 +2094,7 @@ class Date(DateBase, TimeStampBase):
         Many existing python datetime routines expect seconds since epoch.
         This call is to eliminate "magic numbers" like 3600 from code.
         """
-        return _apply_inv_mask(self, self._fa * SECONDS_PER_DAY)
+        return _apply_inv_mask(self, self._fa.astype(np.int64) * SECONDS_PER_DAY)
 
     # ------------------------------------------------------------
     @classmethod
-- 
2.43.0


From 51050c035fcf61f87c20b0f4067bba3f7e58cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:02 +0000
Subject: [PATCH 045/142] fix: repeating a DateTimeNanoScalar shifted it by the
 offset of its original time zone

---
 riptable/rt_datetime.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 0209aef..b3139f6 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -7757,12 +7757,10 @@ class DateTimeNanoScalar(np.int64, DateTimeCommon, TimeStampBase):
 
     # used in adding a scalar to a Dataset
     def repeat(self, repeats, axis=None):
-        return DateTimeNano(
-            self._np.repeat(repeats, axis=axis), to_tz=self._timezone._to_tz, from_tz=self._timezone._from_tz
-        )
+        return DateTimeNano(self._np.repeat(repeats, axis=axis), to_tz=self._timezone._to_tz, from_tz="GMT")
 
     def tile(self, repeats):
-        return DateTimeNano(self._np.tile(repeats), to_tz=self._timezone._to_tz, from_tz=self._timezone._from_tz)
+        return DateTimeNano(self._np.tile(repeats), to_tz=self._timezone._to_tz, from_tz="GMT")
 
 
 # ==========================================================
-- 
2.43.0


From 434a4c2af13f91d91fab37461519df7e393d08a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:02 +0000
Subject: [PATCH 046/142] fix: fields and arithmetic of one-element date and
 time arrays lost missing values

---
 riptable/rt_datetime.py | 49 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index b3139f6..ec55e45 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -547,33 +547,28 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
     Called by time fraction properties and math operations.
     """
     if isinstance(arr1, np.ndarray):
-        if len(arr1) == 1:
-            # broadcast array of 1 path
-            if arr1[0] <= 0:
-                return TypeRegister.FastArray([INVALID_DICT[arr2.dtype.num]])
-            return arr2
-        else:
-            if arr1_inv_mask is None:
-                arr1_inv_mask = arr1.isnan()
-
-            if fillval is None:
-                # use the sentinel or nan for the return array type, e.g. year() returns int32
-                fillval = INVALID_DICT[arr2.dtype.num]
-            putmask(arr2, arr1_inv_mask, fillval)
-
-            # apply the invalid mask from an operation with another array
-            if arr2_inv_mask is not None:
-                # return invalid fill, fixes broadcasting if math operations
-                # was with a scalar or single item array
-                if np.isscalar(arr2_inv_mask):
-                    if arr2_inv_mask:
-                        arr2[:] = fillval
-                elif len(arr2_inv_mask) == 1:
-                    if arr2_inv_mask[0]:
-                        arr2[:] = fillval
-                else:
-                    putmask(arr2, arr2_inv_mask, fillval)
-            return arr2
+        if arr1_inv_mask is None:
+            arr1_inv_mask = arr1.isnan()
+
+        if fillval is None:
+            # use the sentinel or nan for the return array type, e.g. year() returns int32
+            fillval = INVALID_DICT[arr2.dtype.num]
+
+        # apply the invalid mask of both operands
+        for inv_mask in (arr1_inv_mask, arr2_inv_mask):
+            if inv_mask is None:
+                continue
+            # return invalid fill, fixes broadcasting if math operations
+            # was with a scalar or single item array
+            if np.isscalar(inv_mask):
+                if inv_mask:
+                    arr2[:] = fillval
+            elif len(inv_mask) == 1:
+                if inv_mask[0]:
+                    arr2[:] = fillval
+            else:
+                putmask(arr2, inv_mask, fillval)
+        return arr2
     else:
         # scalar path
         if arr1 <= 0:
-- 
2.43.0


From a32929af0acc63daff25996314b664e3cef69436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:19 +0000
Subject: [PATCH 047/142] fix: daylight savings periods of Australia/Sydney
 were wrong before 2008

---
 riptable/rt_timezone.py | 297 +++++++++++++++++++---------------------
 1 file changed, 142 insertions(+), 155 deletions(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 325e3c8..5436b18 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -603,88 +603,79 @@ DUBLIN_OFFSET_NS = 0 * NANOS_PER_HOUR
 
 DST_CUTOFFS_Australia__Sydney = FastArray(
     [
-        # Prefix the array with one additional entry compared to timezones in the northern hemisphere.
-        # Code below in the TimeZone class assumes even-indexed entries represent start-of-DST transition times
-        # (local date/time within this timezone) and odd-numbered entries represent end-of-DST transition times.
-        # Timezones in the southern hemisphere start DST later in the year and end earlier in the year,
-        # so this one additional entry fixes the DST calculations below.
-        "1969-10-26 02:00:00",
-        "1970-04-05 03:00:00",
-        "1970-10-04 02:00:00",
-        "1971-04-04 03:00:00",
-        "1971-10-03 02:00:00",
-        "1972-04-02 03:00:00",
-        "1972-10-01 02:00:00",
-        "1973-04-01 03:00:00",
-        "1973-10-07 02:00:00",
-        "1974-04-07 03:00:00",
-        "1974-10-06 02:00:00",
-        "1975-04-06 03:00:00",
-        "1975-10-05 02:00:00",
-        "1976-04-04 03:00:00",
-        "1976-10-03 02:00:00",
-        "1977-04-03 03:00:00",
-        "1977-10-02 02:00:00",
-        "1978-04-02 03:00:00",
-        "1978-10-01 02:00:00",
-        "1979-04-01 03:00:00",
-        "1979-10-07 02:00:00",
-        "1980-04-06 03:00:00",
-        "1980-10-05 02:00:00",
-        "1981-04-05 03:00:00",
-        "1981-10-04 02:00:00",
+        "1971-10-31 02:00:00",
+        "1972-02-27 03:00:00",
+        "1972-10-29 02:00:00",
+        "1973-03-04 03:00:00",
+        "1973-10-28 02:00:00",
+        "1974-03-03 03:00:00",
+        "1974-10-27 02:00:00",
+        "1975-03-02 03:00:00",
+        "1975-10-26 02:00:00",
+        "1976-03-07 03:00:00",
+        "1976-10-31 02:00:00",
+        "1977-03-06 03:00:00",
+        "1977-10-30 02:00:00",
+        "1978-03-05 03:00:00",
+        "1978-10-29 02:00:00",
+        "1979-03-04 03:00:00",
+        "1979-10-28 02:00:00",
+        "1980-03-02 03:00:00",
+        "1980-10-26 02:00:00",
+        "1981-03-01 03:00:00",
+        "1981-10-25 02:00:00",
         "1982-04-04 03:00:00",
-        "1982-10-03 02:00:00",
-        "1983-04-03 03:00:00",
-        "1983-10-02 02:00:00",
-        "1984-04-01 03:00:00",
-        "1984-10-07 02:00:00",
-        "1985-04-07 03:00:00",
-        "1985-10-06 02:00:00",
-        "1986-04-06 03:00:00",
-        "1986-10-05 02:00:00",
-        "1987-04-05 03:00:00",
-        "1987-10-04 02:00:00",
-        "1988-04-03 03:00:00",
-        "1988-10-02 02:00:00",
-        "1989-04-02 03:00:00",
-        "1989-10-01 02:00:00",
-        "1990-04-01 03:00:00",
-        "1990-10-07 02:00:00",
-        "1991-04-07 03:00:00",
-        "1991-10-06 02:00:00",
-        "1992-04-05 03:00:00",
-        "1992-10-04 02:00:00",
-        "1993-04-04 03:00:00",
-        "1993-10-03 02:00:00",
-        "1994-04-03 03:00:00",
-        "1994-10-02 02:00:00",
-        "1995-04-02 03:00:00",
-        "1995-10-01 02:00:00",
-        "1996-04-07 03:00:00",
-        "1996-10-06 02:00:00",
-        "1997-04-06 03:00:00",
-        "1997-10-05 02:00:00",
-        "1998-04-05 03:00:00",
-        "1998-10-04 02:00:00",
-        "1999-04-04 03:00:00",
-        "1999-10-03 02:00:00",
-        "2000-04-02 03:00:00",
-        "2000-10-01 02:00:00",
-        "2001-04-01 03:00:00",
-        "2001-10-07 02:00:00",
-        "2002-04-07 03:00:00",
-        "2002-10-06 02:00:00",
-        "2003-04-06 03:00:00",
-        "2003-10-05 02:00:00",
-        "2004-04-04 03:00:00",
-        "2004-10-03 02:00:00",
-        "2005-04-03 03:00:00",
-        "2005-10-02 02:00:00",
+        "1982-10-31 02:00:00",
+        "1983-03-06 03:00:00",
+        "1983-10-30 02:00:00",
+        "1984-03-04 03:00:00",
+        "1984-10-28 02:00:00",
+        "1985-03-03 03:00:00",
+        "1985-10-27 02:00:00",
+        "1986-03-16 03:00:00",
+        "1986-10-19 02:00:00",
+        "1987-03-15 03:00:00",
+        "1987-10-25 02:00:00",
+        "1988-03-20 03:00:00",
+        "1988-10-30 02:00:00",
+        "1989-03-19 03:00:00",
+        "1989-10-29 02:00:00",
+        "1990-03-04 03:00:00",
+        "1990-10-28 02:00:00",
+        "1991-03-03 03:00:00",
+        "1991-10-27 02:00:00",
+        "1992-03-01 03:00:00",
+        "1992-10-25 02:00:00",
+        "1993-03-07 03:00:00",
+        "1993-10-31 02:00:00",
+        "1994-03-06 03:00:00",
+        "1994-10-30 02:00:00",
+        "1995-03-05 03:00:00",
+        "1995-10-29 02:00:00",
+        "1996-03-31 03:00:00",
+        "1996-10-27 02:00:00",
+        "1997-03-30 03:00:00",
+        "1997-10-26 02:00:00",
+        "1998-03-29 03:00:00",
+        "1998-10-25 02:00:00",
+        "1999-03-28 03:00:00",
+        "1999-10-31 02:00:00",
+        "2000-03-26 03:00:00",
+        "2000-08-27 02:00:00",
+        "2001-03-25 03:00:00",
+        "2001-10-28 02:00:00",
+        "2002-03-31 03:00:00",
+        "2002-10-27 02:00:00",
+        "2003-03-30 03:00:00",
+        "2003-10-26 02:00:00",
+        "2004-03-28 03:00:00",
+        "2004-10-31 02:00:00",
+        "2005-03-27 03:00:00",
+        "2005-10-30 02:00:00",
         "2006-04-02 03:00:00",
-        "2006-10-01 02:00:00",
-        "2007-04-01 03:00:00",
-        "2007-10-07 02:00:00",
+        "2006-10-29 02:00:00",
+        "2007-03-25 03:00:00",
+        "2007-10-28 02:00:00",
         "2008-04-06 03:00:00",
         "2008-10-05 02:00:00",
         "2009-04-05 03:00:00",
@@ -756,83 +747,79 @@ DST_CUTOFFS_Australia__Sydney = FastArray(
 
 DST_REVERSE_Australia__Sydney = FastArray(
     [
-        "1969-10-25 16:00:00",
-        "1970-04-04 16:00:00",
-        "1970-10-03 16:00:00",
-        "1971-04-03 16:00:00",
-        "1971-10-02 16:00:00",
-        "1972-04-01 16:00:00",
-        "1972-09-30 16:00:00",
-        "1973-03-31 16:00:00",
-        "1973-10-06 16:00:00",
-        "1974-04-06 16:00:00",
-        "1974-10-05 16:00:00",
-        "1975-04-05 16:00:00",
-        "1975-10-04 16:00:00",
-        "1976-04-03 16:00:00",
-        "1976-10-02 16:00:00",
-        "1977-04-02 16:00:00",
-        "1977-10-01 16:00:00",
-        "1978-04-01 16:00:00",
-        "1978-09-30 16:00:00",
-        "1979-03-31 16:00:00",
-        "1979-10-06 16:00:00",
-        "1980-04-05 16:00:00",
-        "1980-10-04 16:00:00",
-        "1981-04-04 16:00:00",
-        "1981-10-03 16:00:00",
+        "1971-10-30 16:00:00",
+        "1972-02-26 16:00:00",
+        "1972-10-28 16:00:00",
+        "1973-03-03 16:00:00",
+        "1973-10-27 16:00:00",
+        "1974-03-02 16:00:00",
+        "1974-10-26 16:00:00",
+        "1975-03-01 16:00:00",
+        "1975-10-25 16:00:00",
+        "1976-03-06 16:00:00",
+        "1976-10-30 16:00:00",
+        "1977-03-05 16:00:00",
+        "1977-10-29 16:00:00",
+        "1978-03-04 16:00:00",
+        "1978-10-28 16:00:00",
+        "1979-03-03 16:00:00",
+        "1979-10-27 16:00:00",
+        "1980-03-01 16:00:00",
+        "1980-10-25 16:00:00",
+        "1981-02-28 16:00:00",
+        "1981-10-24 16:00:00",
         "1982-04-03 16:00:00",
-        "1982-10-02 16:00:00",
-        "1983-04-02 16:00:00",
-        "1983-10-01 16:00:00",
-        "1984-03-31 16:00:00",
-        "1984-10-06 16:00:00",
-        "1985-04-06 16:00:00",
-        "1985-10-05 16:00:00",
-        "1986-04-05 16:00:00",
-        "1986-10-04 16:00:00",
-        "1987-04-04 16:00:00",
-        "1987-10-03 16:00:00",
-        "1988-04-02 16:00:00",
-        "1988-10-01 16:00:00",
-        "1989-04-01 16:00:00",
-        "1989-09-30 16:00:00",
-        "1990-03-31 16:00:00",
-        "1990-10-06 16:00:00",
-        "1991-04-06 16:00:00",
-        "1991-10-05 16:00:00",
-        "1992-04-04 16:00:00",
-        "1992-10-03 16:00:00",
-        "1993-04-03 16:00:00",
-        "1993-10-02 16:00:00",
-        "1994-04-02 16:00:00",
-        "1994-10-01 16:00:00",
-        "1995-04-01 16:00:00",
-        "1995-09-30 16:00:00",
-        "1996-04-06 16:00:00",
-        "1996-10-05 16:00:00",
-        "1997-04-05 16:00:00",
-        "1997-10-04 16:00:00",
-        "1998-04-04 16:00:00",
-        "1998-10-03 16:00:00",
-        "1999-04-03 16:00:00",
-        "1999-10-02 16:00:00",
-        "2000-04-01 16:00:00",
-        "2000-09-30 16:00:00",
-        "2001-03-31 16:00:00",
-        "2001-10-06 16:00:00",
-        "2002-04-06 16:00:00",
-        "2002-10-05 16:00:00",
-        "2003-04-05 16:00:00",
-        "2003-10-04 16:00:00",
-        "2004-04-03 16:00:00",
-        "2004-10-02 16:00:00",
-        "2005-04-02 16:00:00",
-        "2005-10-01 16:00:00",
+        "1982-10-30 16:00:00",
+        "1983-03-05 16:00:00",
+        "1983-10-29 16:00:00",
+        "1984-03-03 16:00:00",
+        "1984-10-27 16:00:00",
+        "1985-03-02 16:00:00",
+        "1985-10-26 16:00:00",
+        "1986-03-15 16:00:00",
+        "1986-10-18 16:00:00",
+        "1987-03-14 16:00:00",
+        "1987-10-24 16:00:00",
+        "1988-03-19 16:00:00",
+        "1988-10-29 16:00:00",
+        "1989-03-18 16:00:00",
+        "1989-10-28 16:00:00",
+        "1990-03-03 16:00:00",
+        "1990-10-27 16:00:00",
+        "1991-03-02 16:00:00",
+        "1991-10-26 16:00:00",
+        "1992-02-29 16:00:00",
+        "1992-10-24 16:00:00",
+        "1993-03-06 16:00:00",
+        "1993-10-30 16:00:00",
+        "1994-03-05 16:00:00",
+        "1994-10-29 16:00:00",
+        "1995-03-04 16:00:00",
+        "1995-10-28 16:00:00",
+        "1996-03-30 16:00:00",
+        "1996-10-26 16:00:00",
+        "1997-03-29 16:00:00",
+        "1997-10-25 16:00:00",
+        "1998-03-28 16:00:00",
+        "1998-10-24 16:00:00",
+        "1999-03-27 16:00:00",
+        "1999-10-30 16:00:00",
+        "2000-03-25 16:00:00",
+        "2000-08-26 16:00:00",
+        "2001-03-24 16:00:00",
+        "2001-10-27 16:00:00",
+        "2002-03-30 16:00:00",
+        "2002-10-26 16:00:00",
+        "2003-03-29 16:00:00",
+        "2003-10-25 16:00:00",
+        "2004-03-27 16:00:00",
+        "2004-10-30 16:00:00",
+        "2005-03-26 16:00:00",
+        "2005-10-29 16:00:00",
         "2006-04-01 16:00:00",
-        "2006-09-30 16:00:00",
-        "2007-03-31 16:00:00",
-        "2007-10-06 16:00:00",
+        "2006-10-28 16:00:00",
+        "2007-03-24 16:00:00",
+        "2007-10-27 16:00:00",
         "2008-04-05 16:00:00",
         "2008-10-04 16:00:00",
         "2009-04-04 16:00:00",
-- 
2.43.0


From 69c2a7ab6da965b1abe9282a6ac8964fdb7b6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:19 +0000
Subject: [PATCH 048/142] fix: offsets of Europe/Dublin were wrong before 1981

---
 riptable/rt_timezone.py | 58 ++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 5436b18..f6725aa 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -311,24 +311,26 @@ NYC_OFFSET_NS = 5 * NANOS_PER_HOUR
 
 DST_CUTOFFS_DUBLIN = FastArray(
     [
+        "1970-01-01 00:00:00",
+        "1971-10-31 03:00:00",
         "1972-03-19 02:00:00",
-        "1972-10-29 02:00:00",
+        "1972-10-29 03:00:00",
         "1973-03-18 02:00:00",
-        "1973-10-28 02:00:00",
+        "1973-10-28 03:00:00",
         "1974-03-17 02:00:00",
-        "1974-10-27 02:00:00",
+        "1974-10-27 03:00:00",
         "1975-03-16 02:00:00",
-        "1975-10-26 02:00:00",
+        "1975-10-26 03:00:00",
         "1976-03-21 02:00:00",
-        "1976-10-24 02:00:00",
+        "1976-10-24 03:00:00",
         "1977-03-20 02:00:00",
-        "1977-10-23 02:00:00",
+        "1977-10-23 03:00:00",
         "1978-03-19 02:00:00",
-        "1978-10-29 02:00:00",
+        "1978-10-29 03:00:00",
         "1979-03-18 02:00:00",
-        "1979-10-28 02:00:00",
+        "1979-10-28 03:00:00",
         "1980-03-16 02:00:00",
-        "1980-10-26 02:00:00",
+        "1980-10-26 03:00:00",
         "1981-03-29 02:00:00",
         "1981-10-25 02:00:00",
         "1982-03-28 02:00:00",
@@ -454,24 +456,26 @@ DST_CUTOFFS_DUBLIN = FastArray(
 
 DST_REVERSE_DUBLIN = FastArray(
     [
-        "1972-03-19 01:00:00",
-        "1972-10-29 01:00:00",
-        "1973-03-18 01:00:00",
-        "1973-10-28 01:00:00",
-        "1974-03-17 01:00:00",
-        "1974-10-27 01:00:00",
-        "1975-03-16 01:00:00",
-        "1975-10-26 01:00:00",
-        "1976-03-21 01:00:00",
-        "1976-10-24 01:00:00",
-        "1977-03-20 01:00:00",
-        "1977-10-23 01:00:00",
-        "1978-03-19 01:00:00",
-        "1978-10-29 01:00:00",
-        "1979-03-18 01:00:00",
-        "1979-10-28 01:00:00",
-        "1980-03-16 01:00:00",
-        "1980-10-26 01:00:00",
+        "1970-01-01 00:00:00",
+        "1971-10-31 02:00:00",
+        "1972-03-19 02:00:00",
+        "1972-10-29 02:00:00",
+        "1973-03-18 02:00:00",
+        "1973-10-28 02:00:00",
+        "1974-03-17 02:00:00",
+        "1974-10-27 02:00:00",
+        "1975-03-16 02:00:00",
+        "1975-10-26 02:00:00",
+        "1976-03-21 02:00:00",
+        "1976-10-24 02:00:00",
+        "1977-03-20 02:00:00",
+        "1977-10-23 02:00:00",
+        "1978-03-19 02:00:00",
+        "1978-10-29 02:00:00",
+        "1979-03-18 02:00:00",
+        "1979-10-28 02:00:00",
+        "1980-03-16 02:00:00",
+        "1980-10-26 02:00:00",
         "1981-03-29 01:00:00",
         "1981-10-25 01:00:00",
         "1982-03-28 01:00:00",
-- 
2.43.0


From 78c8217005502fa0a54e390c195491351f0a688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:01 +0000
Subject: [PATCH 049/142] fix: calendar fields of missing DateTimeNano values
 were arbitrary numbers instead of missing

---
 riptable/rt_datetime.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index ec55e45..3f95fef 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3336,7 +3336,7 @@ class DateTimeCommon:
         final += monthnum.astype(np.int32) * 100
         final += (monthtime // NANOS_PER_DAY) + 1
 
-        return final
+        return _apply_inv_mask(self, final)
 
     # ------------------------------------------------------------
     @property
@@ -3433,7 +3433,7 @@ class DateTimeCommon:
             result = result // NANOS_PER_DAY
         result += 1
 
-        return result
+        return _apply_inv_mask(self, result)
 
     # ------------------------------------------------------------
     @property
@@ -3476,7 +3476,7 @@ class DateTimeCommon:
             monthtime = monthtime // NANOS_PER_DAY
         monthtime += 1
 
-        return monthtime
+        return _apply_inv_mask(self, monthtime)
 
     # ------------------------------------------------------------
     @property
@@ -3506,7 +3506,7 @@ class DateTimeCommon:
             np.mod(arr, 7, out=arr)
         else:
             arr = arr % 7
-        return arr
+        return _apply_inv_mask(self, arr)
 
     # ------------------------------------------------------------
     @property
@@ -3520,6 +3520,7 @@ class DateTimeCommon:
         adjust = arr % 7
         arr -= adjust
         arr -= EPOCH_DAY_OF_WEEK
+        arr = arr * self.isnotnan()
 
         result = Date(arr)
         if not isinstance(arr, np.ndarray):
-- 
2.43.0


From 0394d9ad55d89db6df863266bf9c1379ddb7c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:21 +0000
Subject: [PATCH 050/142] fix: month, monthyear, day_of_month and yyyymmdd
 raised TypeError on a DateTimeNanoScalar

---
 riptable/rt_datetime.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 3f95fef..87cf590 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -7751,6 +7751,21 @@ class DateTimeNanoScalar(np.int64, DateTimeCommon, TimeStampBase):
         # reroute this back to the nonscalar
         return DateTimeNano.__sub__(self, value)
 
+    # these calendar fields are computed on arrays
+    def month(self):
+        return self.repeat(1).month()[0]
+
+    def monthyear(self, arr=None):
+        return self.repeat(1).monthyear()[0]
+
+    @property
+    def day_of_month(self):
+        return self.repeat(1).day_of_month[0]
+
+    @property
+    def yyyymmdd(self):
+        return self.repeat(1).yyyymmdd[0]
+
     # used in adding a scalar to a Dataset
     def repeat(self, repeats, axis=None):
         return DateTimeNano(self._np.repeat(repeats, axis=axis), to_tz=self._timezone._to_tz, from_tz="GMT")
-- 
2.43.0


From 58a113d29a5bd91ad1f927ccebe7fa88a6ec454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:21 +0000
Subject: [PATCH 051/142] fix: TimeSpan - DateSpan subtracted the days as
 nanoseconds

---
 riptable/rt_datetime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 87cf590..2ee1ec2 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6790,7 +6790,11 @@ class TimeSpanBase:
     def __sub__(self, value):
         if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
             return value.__rsub__(self)
-        return self._fix_binary_ops(value, "__sub__")
+        other_inv_mask = None
+        if isinstance(value, (DateSpan, DateSpanScalar)):
+            other_inv_mask = isnan(value)
+            value = value._fa * NANOS_PER_DAY
+        return self._fix_binary_ops(value, "__sub__", other_inv_mask=other_inv_mask)
 
     # -------------------------------------------------------------
     def __rsub__(self, value):
-- 
2.43.0


From bfcda3e99b10eb25f72c955f1d0ff54306a47bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:21 +0000
Subject: [PATCH 052/142] fix: a missing DateSpan plus a TimeSpan or
 DateTimeNano was not missing

---
 riptable/rt_datetime.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 2ee1ec2..82eab0e 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1061,8 +1061,15 @@ class DateBase(FastArray):
         # print('other_inv_mask',other_inv_mask)
         # print('return type',return_type)
 
+        # a TimeSpan or DateTimeNano result has its own invalid
+        fillval = self.NAN_DATE
+        if return_type == TimeSpan:
+            fillval = np.nan
+        elif return_type == DateTimeNano:
+            fillval = DateTimeBase.NAN_TIME
+
         result = _apply_inv_mask(
-            self, result, fillval=self.NAN_DATE, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask
+            self, result, fillval=fillval, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask
         )
 
         if not isinstance(result, return_type):
-- 
2.43.0


From 317a4840a68da79028e43d426639327927396ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:24 +0000
Subject: [PATCH 053/142] fix: searchsorted read the wrong elements of strided
 or reversed arrays

---
 riptable/rt_numpy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index eaefcc0..19d7c98 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -680,8 +680,9 @@ def _searchsorted(array, v, side="left", sorter=None):
     if not isinstance(v, np.ndarray):
         v = np.array(v, dtype=dtype)
 
-    array = possibly_convert(array, dtype)
-    v = possibly_convert(v, dtype)
+    # the search below reads both arrays as contiguous memory
+    array = np.asanyarray(possibly_convert(array, dtype), order="C")
+    v = np.asanyarray(possibly_convert(v, dtype), order="C")
     # we cannot handle a sorter
     if sorter is None:
         try:
-- 
2.43.0


From 8b27abd3089153e64138dda2f62fdaa23d23423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:24 +0000
Subject: [PATCH 054/142] fix: TimeSpan arithmetic with a single missing
 integer or DateSpan was not missing

---
 riptable/rt_datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 82eab0e..e47ad06 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6881,9 +6881,9 @@ class TimeSpanBase:
                     result[inv_mask] = np.nan
             else:
                 # possible nan fill
-                if len(other_inv_mask) == 1:
-                    if isnan(other_inv_mask)[0]:
-                        result = TimeSpan(full(len(self), np.nan, dtype=np.float64))
+                if np.isscalar(other_inv_mask) or len(other_inv_mask) == 1:
+                    if np.all(other_inv_mask):
+                        result[:] = np.nan
                 else:
                     result[other_inv_mask] = np.nan
             result = TimeSpan(result)
-- 
2.43.0


From 49e9f04c954e8fc06935bda81d6bfbf152af52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:58 +0000
Subject: [PATCH 055/142] fix: date and time scalars were treated as plain
 numbers in operations with arrays of other date and time types

---
 riptable/rt_datetime.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e47ad06..0918951 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -577,6 +577,13 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
 
 
 # ========================================================
+def _scalar_to_array(value):
+    """In operations with arrays, date and time scalars act like one-element arrays of their type."""
+    if isinstance(value, (DateScalar, DateSpanScalar, DateTimeNanoScalar, TimeSpanScalar)):
+        return value.repeat(1)
+    return value
+
+
 class DateTimeBase(FastArray):
     """Base class for DateTimeNano and TimeSpan.
     Both of these subclasses have times with nanosecond precision.
@@ -1026,6 +1033,7 @@ class DateBase(FastArray):
         if funcname in self.forbidden_mathops:
             raise TypeError(f"Cannot perform {funcname} on {self.__class__.__name__} object.")
 
+        value = _scalar_to_array(value)
         inv_mask = self.isnan()
         other_inv_mask = None
         return_type = None
@@ -2244,6 +2252,7 @@ class Date(DateBase, TimeStampBase):
         """
 
         caller = self._fa
+        other = _scalar_to_array(other)
 
         if isinstance(other, (DateSpan, TimeSpan, DateSpanScalar, TimeSpanScalar)):
             raise TypeError(f"Cannot perform {funcname} comparison operation between {type(self)} and {type(other)}.")
@@ -2321,6 +2330,7 @@ class Date(DateBase, TimeStampBase):
 
         All other operands will be treated as DateSpan and return Date.
         """
+        value = _scalar_to_array(value)
         if isinstance(value, Date):
             func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
             # need routine for int32 - int32 => int32 (operands have 0 as invalid, result has sentinel as invalid)
@@ -3010,6 +3020,7 @@ class DateSpan(DateBase):
         """
 
         caller = self._fa
+        other = _scalar_to_array(other)
 
         if isinstance(other, (Date, DateTimeNano, TypeRegister.Categorical)):
             # Date allows categorical comparisons, DateSpan does not
@@ -6769,6 +6780,8 @@ class TimeSpanBase:
     # -------------------------------------------------------------
     def __add__(self, value):
         other_inv_mask = None
+        if isinstance(self, np.ndarray):
+            value = _scalar_to_array(value)
 
         # TimeSpan add
         if not isinstance(value, np.ndarray):
@@ -6795,6 +6808,8 @@ class TimeSpanBase:
 
     # -------------------------------------------------------------
     def __sub__(self, value):
+        if isinstance(self, np.ndarray):
+            value = _scalar_to_array(value)
         if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
             return value.__rsub__(self)
         other_inv_mask = None
@@ -6805,6 +6820,8 @@ class TimeSpanBase:
 
     # -------------------------------------------------------------
     def __rsub__(self, value):
+        if isinstance(self, np.ndarray):
+            value = _scalar_to_array(value)
         if not isinstance(value, np.ndarray):
             value = FastArray(value).astype(np.float64)
 
@@ -7067,6 +7084,8 @@ class TimeSpanBase:
         if isinstance(other, (str, bytes)):
             other = TimeSpan(other)[0]
 
+        if isinstance(self, np.ndarray):
+            other = _scalar_to_array(other)
         if isinstance(other, (DateTimeNano, Date)):
             raise TypeError(f"Cannot compare TimeSpan with {type(other)}")
         # upcast DateSpan to nanoseconds
-- 
2.43.0


From 968704e2032c29d219beadb730c4122f3eccdd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:43 +0000
Subject: [PATCH 056/142] fix: inplace addition to a TimeSpan returned a
 FastArray and added days as nanoseconds

---
 riptable/rt_datetime.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 0918951..285aa86 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -7250,6 +7250,20 @@ class TimeSpan(TimeSpanBase, DateTimeBase):
     def get_scalar(self, scalarval):
         return TimeSpanScalar(scalarval, _from=self)
 
+    # ------------------------------------------------------------
+    def _inplace_binary_ops(self, result):
+        # keep the result of an inplace operation in this array if it still is a TimeSpan
+        if isinstance(result, TimeSpan):
+            self._np[:] = result._np
+            return self
+        return result
+
+    def __iadd__(self, value):
+        return self._inplace_binary_ops(self.__add__(value))
+
+    def __isub__(self, value):
+        return self._inplace_binary_ops(self.__sub__(value))
+
     # ------------------------------------------------------------
     @classmethod
     def newclassfrominstance(cls, instance, origin):
-- 
2.43.0


From cd2466b345e3a96678d6bb4d26fa6e8b795ef9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:07 +0000
Subject: [PATCH 057/142] fix: subtracting reversed Date or DateTimeNano arrays
 raised

---
 riptable/rt_datetime.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 285aa86..4a52a33 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -577,6 +577,13 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
 
 
 # ========================================================
+def _contiguous(value):
+    """The kernels that subtract dates do not accept reversed arrays."""
+    if isinstance(value, np.ndarray) and not value.flags.c_contiguous:
+        return value.copy()
+    return value
+
+
 def _scalar_to_array(value):
     """In operations with arrays, date and time scalars act like one-element arrays of their type."""
     if isinstance(value, (DateScalar, DateSpanScalar, DateTimeNanoScalar, TimeSpanScalar)):
@@ -2337,7 +2344,7 @@ class Date(DateBase, TimeStampBase):
             # right now, using the double return, gets recasted in the constructor
             op = MATH_OPERATION.SUBDATETIMES
 
-            functup = (self, value)
+            functup = (_contiguous(self), _contiguous(value))
             result = func(functup, op, 0)
             return DateSpan(result)
 
@@ -4102,7 +4109,7 @@ class DateTimeCommon:
             if inplace:
                 functup = (input1, other, input1)
             else:
-                functup = (input1, other)
+                functup = (_contiguous(input1), _contiguous(other))
 
             result = func(functup, op, 0)
             if result is None:
-- 
2.43.0


From 6a7ee170bf356e5548db28a3c7b18d441a3cd79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:01 +0000
Subject: [PATCH 058/142] fix: subtracting a missing Date, or a missing
 TimeSpanScalar, from a DateTimeNano was not missing

---
 riptable/rt_datetime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 4a52a33..a42afcb 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -5853,12 +5853,14 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
                 op = MATH_OPERATION.SUBDATETIMES
                 if inplace:
                     raise TypeError(f"__sub__ returns TimeSpan. Cannot perform inplace.")
-                # upcast Date
-                other = other.astype(np.int64) * NANOS_PER_DAY
+                # upcast Date, 0 is the invalid for this operation
+                other = other.astype(np.int64)
+                other = other * NANOS_PER_DAY * (other != INVALID_DICT[np.dtype(np.int32).num])
 
             elif isinstance(other, (TimeSpan, TimeSpanScalar)):
                 # apply our own mask during this track
                 return_type = DateTimeNano
+                other_inv_mask = isnan(other)
                 # upcast TimeSpan to preserve precision
                 other = other.astype(np.int64)
                 call_super = True
-- 
2.43.0


From f33b4cbd46337da0258628e771696db3ad1df8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:01 +0000
Subject: [PATCH 059/142] fix: DateSpan + DateTimeNano lost the display time
 zone

---
 riptable/rt_datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index a42afcb..003dd30 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1046,6 +1046,7 @@ class DateBase(FastArray):
         return_type = None
         caller = self._fa
 
+        operand = value
         # check if operand has nano precision, set invalid, return type accordingly
         value, other_inv_mask, return_type, caller = self._check_mathops_nano(
             funcname, value, other_inv_mask, return_type, caller
@@ -1063,7 +1064,7 @@ class DateBase(FastArray):
             return other_inv_mask
 
         # apply invalid mask(s) and wrap result in final return type
-        result = self._build_mathops_result(value, result, inv_mask, other_inv_mask, return_type)
+        result = self._build_mathops_result(operand, result, inv_mask, other_inv_mask, return_type)
         return result
 
     # ------------------------------------------------------------
-- 
2.43.0


From f107e82c7f826bf7b4d8c0bfa3662990d40dbfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:07 +0000
Subject: [PATCH 060/142] fix: hstack of a single Date, DateSpan or
 DateTimeNano returned the list passed in

---
 riptable/rt_hstack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index 40b9986..3deefd2 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -748,7 +748,7 @@ def _hstack_datetimenano(dtlist, destroy=False):
         if dt._timezone._timezone_str != timezone:
             raise NotImplementedError(f"Can only hstack DateTimeNano objects in the same timezone.")
     if len(dtlist) == 1:
-        return dtlist
+        return dtlist[0].copy()
 
     # hstack int64 utc nano arrays
     arr = rc.HStack(dtlist)
@@ -809,7 +809,7 @@ def _hstack_date_internal(dates, subclass=TypeRegister.Date):
             # maybe extend this to support stacking with regular DateTimeNano objects?
             raise TypeError(f"Could not perform Date.hstack() on item of type {type(d)}")
     if len(dates) == 1:
-        return dates
+        return dates[0].copy()
 
     stacked = rc.HStack(dates)
     return subclass.newclassfrominstance(stacked, dates[0])
-- 
2.43.0


From 3133f2c66c9de70a2875fd0bc639126381d4b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:07 +0000
Subject: [PATCH 061/142] fix: hstack of strided or reversed Categorical, date
 and time arrays raised

---
 riptable/rt_hstack.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index 3deefd2..d3c6b0e 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -12,6 +12,12 @@ from .rt_grouping import hstack_groupings, merge_cats
 from .rt_numpy import arange, empty, hstack
 
 
+def _contiguous(arrays):
+    """rc.HStack only reads contiguous arrays."""
+    return [arr if arr.strides == (arr.itemsize,) else arr.copy() for arr in arrays]
+
+
+# ------------------------------------------------------------
 def hstack_any(
     itemlist: Union[list, Mapping[str, np.ndarray]],
     cls: Optional[type] = None,
@@ -661,7 +667,7 @@ def _hstack_categorical(cats: list, verbose: bool = False, destroy: bool = False
     # todo: see _multistack_categoricals int rt_sds.py
     # stack indices
     # this will stack the fastarrays
-    indices = rc.HStack(cats)
+    indices = rc.HStack(_contiguous(cats))
     idx_cutoffs = TypeRegister.FastArray([len(c._fa) for c in cats], dtype=np.int64).cumsum()
 
     # ------------------------- start rebuild here
@@ -751,7 +757,7 @@ def _hstack_datetimenano(dtlist, destroy=False):
         return dtlist[0].copy()
 
     # hstack int64 utc nano arrays
-    arr = rc.HStack(dtlist)
+    arr = rc.HStack(_contiguous(dtlist))
 
     # reconstruct with first item
     return TypeRegister.DateTimeNano.newclassfrominstance(arr, dtlist[0])
@@ -764,7 +770,7 @@ def _hstack_timespan(tspans, destroy=False):
     This is a very simple class, rewrap the hstack result in class.
     NOTE: destroy ignored
     """
-    ts = rc.HStack(tspans)
+    ts = rc.HStack(_contiguous(tspans))
     return TypeRegister.TimeSpan(ts)
 
 
@@ -811,7 +817,7 @@ def _hstack_date_internal(dates, subclass=TypeRegister.Date):
     if len(dates) == 1:
         return dates[0].copy()
 
-    stacked = rc.HStack(dates)
+    stacked = rc.HStack(_contiguous(dates))
     return subclass.newclassfrominstance(stacked, dates[0])
 
 
-- 
2.43.0


From 9b6db15957e8e5d11fc8a8b41258462049859a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:59 +0000
Subject: [PATCH 062/142] fix: sum and nansum of strided or reversed arrays
 returned 0, other reductions raised

---
 riptable/rt_ledger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_ledger.py b/riptable/rt_ledger.py
index 4b1d3fd..83eec59 100644
--- a/riptable/rt_ledger.py
+++ b/riptable/rt_ledger.py
@@ -228,6 +228,9 @@ class MathLedger(Struct):
         if cls.Verbose > 1:
             print(f"reduce ledger {arg1} {reduceFunc}")
             # if cls.Verbose > 2:   cls._TRACEBACK(rc.Reduce)
+        # rc.Reduce returns nothing for strided or reversed arrays
+        if isinstance(arg1, np.ndarray) and arg1.ndim == 1 and arg1.strides[0] != arg1.itemsize:
+            arg1 = arg1.copy()
         return cls._FUNNEL_ALL(rc.Reduce, arg1, reduceFunc)
 
     @classmethod
-- 
2.43.0


From 672a34603aa610217a2e54f1cfd08488d5ba88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:20 +0000
Subject: [PATCH 063/142] fix: string operations on strided arrays raised
 ValueError

---
 riptable/rt_str.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index fa46d3d..234a0ff 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -143,6 +143,10 @@ class FAString(FastArray):
 
         itemsize = np.int64(arr.itemsize)
 
+        if intype in "SU" and (arr.ndim != 1 or arr.strides[0] != arr.itemsize):
+            # the characters of strided arrays cannot be viewed in place
+            arr = arr.copy()
+
         if intype == "S":
             # convert to two dim one byte array
             instance = arr.view(np.uint8)
-- 
2.43.0


From fd2d54e73d50d28c75a0a33625f3176e70819c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:20 +0000
Subject: [PATCH 064/142] fix: regex_match and regex_replace raised on empty
 arrays

---
 riptable/rt_str.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index 234a0ff..03c91be 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -958,7 +958,7 @@ class FAString(FastArray):
         if self._intype == "S":
             regex = _maybe_encode(regex)
         regex = re.compile(regex)
-        vmatch = np.vectorize(lambda x: bool(regex.search(x)))
+        vmatch = np.vectorize(lambda x: bool(regex.search(x)), otypes=[bool])
         bools = vmatch(self.backtostring)
 
         return bools
@@ -1027,7 +1027,7 @@ class FAString(FastArray):
         if self._intype == "S":
             regex, repl = map(_maybe_encode, (regex, repl))
         regex = re.compile(regex)
-        vmatch = np.vectorize(lambda x: regex.sub(repl, x))
+        vmatch = np.vectorize(lambda x: regex.sub(repl, x), otypes=[self._intype])
         return vmatch(self.backtostring)
 
     @_handle_apply_unique
-- 
2.43.0


From 6d05cd97de87e44b2dd70ca73730013dc7b9d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:20 +0000
Subject: [PATCH 065/142] fix: substr_char_stop(inclusive=True) cut stops of
 several characters

---
 riptable/rt_str.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index 03c91be..60e7539 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -1257,7 +1257,7 @@ class FAString(FastArray):
         int_stop = self.index(stop)
         int_stop[int_stop == -1] = self._itemsize  # return full string if stop not found
         if inclusive:
-            int_stop += 1
+            int_stop += len(stop)
         return self.substr(int_stop)
 
     def _nb_char(src, position, itemsize, strlen, out):
-- 
2.43.0


From 132e0d0a12c927461e48c7d0f0247ebb85f63f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:20 +0000
Subject: [PATCH 066/142] fix: extract without a capture group raised on
 unicode arrays

---
 riptable/rt_str.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index 60e7539..64dfd7b 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -1126,7 +1126,8 @@ class FAString(FastArray):
         ngroups = compiled.groups
         if ngroups == 0:
             # convenience where we treat the entire pattern as a capture group
-            return self.extract(f"({regex.decode()})", **kwargs)
+            pattern = regex.decode() if isinstance(regex, bytes) else regex
+            return self.extract(f"({pattern})", **kwargs)
 
         # expand defaults to False if we have one capture group and do not specify names
         if expand is None:
-- 
2.43.0


From 1ee4793f2bb818a9352458769fe5b61bc072e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:20 +0000
Subject: [PATCH 067/142] fix: substr[i:] of a Categorical used another row's
 string length

---
 riptable/rt_str.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index 64dfd7b..d828ba2 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -1436,7 +1436,7 @@ class _SubStrAccessor:
             if y.step is not None:
                 raise NotImplementedError("slicing with step in substr is not supported")
             if y.stop is None:
-                stop = self.fastring.strlen
+                stop = np.iinfo(np.int32).max
             else:
                 stop = y.stop
             return self.fastring._substr(y.start, stop)
-- 
2.43.0


From f665d8a8348f98fe1d8800a78ec94c2f2da94e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:20 +0000
Subject: [PATCH 068/142] fix: extract wrote 'None' for optional groups that
 did not match

---
 riptable/rt_str.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index d828ba2..7e0f66f 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -1153,7 +1153,8 @@ class FAString(FastArray):
             if result is not None:
                 result = result.groups()
                 for s, arr in zip(result, out_arrs):
-                    arr[i] = s
+                    if s is not None:
+                        arr[i] = s
 
         if expand:
             out = TypeRegister.Dataset(dict(zip(names, out_arrs)))
-- 
2.43.0


From cb277e7ce732be3c387335d8ffd91641d64caa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:54 +0000
Subject: [PATCH 069/142] fix: Accum2 totals of mean, var, std and median
 included elements whose row or column key is filtered

---
 riptable/rt_accum2.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index c0b2183..1e859fe 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -699,6 +699,13 @@ class Accum2(GroupByOps, FastArray):
         if name is None:
             name = str.capitalize(func.__name__)
 
+        if not showfilter:
+            # elements without a row key or without a column key are in no cell of the table, leave them out of its totals
+            haskeys = cat_rows.grouping.ikey >= cat_rows.grouping.base_index
+            haskeys &= cat_cols.grouping.ikey >= cat_cols.grouping.base_index
+            if not haskeys.all():
+                filter = haskeys if filter is None else haskeys & filter
+
         # get a negative boolean filter
         newfilterX = cls._calc_badslots(cat_cols, badcols, filter, False)
         newfilterY = cls._calc_badslots(cat_rows, badrows, filter, False)
-- 
2.43.0


From 93dd3622f48ec8ea05e58c65f440c055717a7fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:54 +0000
Subject: [PATCH 070/142] fix: Accum2 min and max totals were invalid wherever
 a cell of the row or column is empty

---
 riptable/rt_accum2.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 1e859fe..1bdc2f0 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -750,10 +750,11 @@ class Accum2(GroupByOps, FastArray):
             # we can have common filters, row filters, and col filters
 
             try:
-                if newfilter is not None:
-                    totalOfTotals = func(origarr[newfilter])
+                included = origarr if newfilter is None else origarr[newfilter]
+                if len(included) == 0:
+                    totalOfTotals = INVALID_DICT[totalsY.dtype.num]
                 else:
-                    totalOfTotals = func(origarr)
+                    totalOfTotals = func(included)
             except:
                 if "func_param" not in kwargs:
                     raise ValueError(f"Function {name} requires an extra parameter.")
@@ -1294,10 +1295,10 @@ class Accum2(GroupByOps, FastArray):
 apply_dict_total = {
     GB_FUNCTIONS.GB_SUM: ("Total", np.sum, Accum2._calc_onepass),
     GB_FUNCTIONS.GB_NANSUM: ("Nansum", np.nansum, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_MIN: ("Min", np.min, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_NANMIN: ("Nanmin", np.nanmin, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_MAX: ("Max", np.max, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_NANMAX: ("Nanmax", np.nanmax, Accum2._calc_onepass),
+    GB_FUNCTIONS.GB_MIN: ("Min", np.min, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANMIN: ("Nanmin", np.nanmin, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_MAX: ("Max", np.max, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANMAX: ("Nanmax", np.nanmax, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_MEAN: ("Mean", np.mean, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_NANMEAN: ("Nanmean", np.nanmean, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_VAR: ("Var", np.var, Accum2._calc_multipass),
-- 
2.43.0


From 8d1d929d2f86bd684d43a9306bfafc7f2e270c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:13 +0000
Subject: [PATCH 071/142] fix: Accum2 grand totals of var and std used another
 ddof than the cells and the other totals

---
 riptable/rt_accum2.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 1bdc2f0..41b4f94 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -28,7 +28,11 @@ from .rt_numpy import (
     full,
     groupbypack,
     ismember,
+    nanstd,
+    nanvar,
     ones,
+    std,
+    var,
     where,
     zeros,
 )
@@ -1301,10 +1305,10 @@ apply_dict_total = {
     GB_FUNCTIONS.GB_NANMAX: ("Nanmax", np.nanmax, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_MEAN: ("Mean", np.mean, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_NANMEAN: ("Nanmean", np.nanmean, Accum2._calc_multipass),
-    GB_FUNCTIONS.GB_VAR: ("Var", np.var, Accum2._calc_multipass),
-    GB_FUNCTIONS.GB_NANVAR: ("Nanvar", np.nanvar, Accum2._calc_multipass),
-    GB_FUNCTIONS.GB_STD: ("Std", np.std, Accum2._calc_multipass),
-    GB_FUNCTIONS.GB_NANSTD: ("Nanstd", np.nanstd, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_VAR: ("Var", var, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANVAR: ("Nanvar", nanvar, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_STD: ("Std", std, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANSTD: ("Nanstd", nanstd, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_MEDIAN: ("Median", np.nanmedian, Accum2._calc_multipass),
     # Didn't change name of Median to Nanmedian in GroupByOps.quantile_name_from_param to avoid breaking existing things
     # quantile functions take an argument with 1e9 multiplier, so use simple wrappers in GroupByOps
-- 
2.43.0


From 4796b73c423537d3ceaf9e225fd241a7e1d728a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:30 +0000
Subject: [PATCH 072/142] fix: Accum2 grand totals of quantiles took integer
 invalids for values

---
 riptable/rt_numpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 19d7c98..cf78061 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -4195,6 +4195,10 @@ def gb_np_quantile(a, q, is_nan_function):
     Statistic (quantile) computed with a corresponding numpy function
     """
 
+    # numpy does not know integer invalids
+    if a.dtype.kind in "iu" and isnan(a).any():
+        a = a.astype(np.float64)
+
     # np.min/max are overwritten for FA, so convert to np.arrays
 
     if q == 0.5:
-- 
2.43.0


From 9cb3e51844221bebdcbd05791f473c311258fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:30 +0000
Subject: [PATCH 073/142] fix: Accum2.sum row totals took invalid integer cells
 for values

---
 riptable/rt_accum2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 41b4f94..259d2b1 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -459,6 +459,11 @@ class Accum2(GroupByOps, FastArray):
             # print("im0", imatrix.nansum())
             totalsY = func(imatrix, axis=1)  # [showfilter_base:]
 
+            # an invalid integer cell makes the total invalid, the 2d operation takes it for a value
+            if imatrix.dtype.kind in "iu":
+                invalid = INVALID_DICT[imatrix.dtype.num]
+                totalsY[(imatrix._np == invalid).any(axis=1)] = INVALID_DICT[totalsY.dtype.num]
+
             # vertical func operation
             totalsX = empty(col_count, dtype=totalsY.dtype)
 
-- 
2.43.0


From c21e0dfd310eb72e92be6bf8519f5f61ba191579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:12 +0000
Subject: [PATCH 074/142] fix: Accum2 totals of mean, var, std and median were
 in another order than the keys for sort_gb Categoricals

---
 riptable/rt_accum2.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 259d2b1..72aa396 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -512,7 +512,7 @@ class Accum2(GroupByOps, FastArray):
             )
 
             # the showfilter is handled automatically
-            return accum_tuple[0]
+            totals = accum_tuple[0]
 
         else:
             ikey = cat.grouping.ikey
@@ -559,11 +559,18 @@ class Accum2(GroupByOps, FastArray):
                     func_param,
                 )
 
-        # whether or not they want to see the filter
-        if basebin != 0:
-            return accum_tuple[0][basebin:]
-        else:
-            return accum_tuple[0]
+            # whether or not they want to see the filter
+            totals = accum_tuple[0]
+            if basebin != 0:
+                totals = totals[basebin:]
+
+        # the table shows sorted keys
+        if cat.gb_keychain.sort_gb_data:
+            sort_idx = cat.gb_keychain.isortrows
+            if showfilter:
+                sort_idx = np.append([0], sort_idx + 1)
+            totals = totals[sort_idx]
+        return totals
 
     # ---------------------------------------------------------------
     @classmethod
-- 
2.43.0


From bf77f763dd065d60d8350b50f530d6a2a528c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:03 +0000
Subject: [PATCH 075/142] fix: Dataset.pivot without labels raised
 AttributeError instead of using the Dataset's labels

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 2cac33f..0561a28 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8041,7 +8041,7 @@ class Dataset(Struct):
         """
         if labels is None:
             # see if existing labels exist
-            labels = self.labels_get_names()
+            labels = self.label_get_names()
         elif np.isscalar(labels):
             labels = [labels]
 
-- 
2.43.0


From 230aecc707af437ebe72a4d93b64198ac9a4b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:03 +0000
Subject: [PATCH 076/142] fix: Dataset.pivot reported duplicates when the
 filter leaves out two rows

---
 riptable/rt_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 0561a28..a9f229b 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8088,7 +8088,9 @@ class Dataset(Struct):
         row_len = len(ds_crd) + 1
 
         # check for duplicates
-        ncountgroup = g.ncountgroup
+        ncountgroup = g.ncountgroup.copy()
+        # the rows that do not pass the filter are not in the result
+        ncountgroup[0] = 0
         pos = ncountgroup.argmax()
         if ncountgroup[pos] > 1:
             # find out where a duplicate is
-- 
2.43.0


From 199fb6c8ae9cdd47bd4dddbc59376f4f4bec81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:03 +0000
Subject: [PATCH 077/142] fix: Dataset.from_jagged_rows raised on unicode rows
 and on fill values of the rows' own string type

---
 riptable/rt_dataset.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index a9f229b..9b6a970 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -7618,17 +7618,15 @@ class Dataset(Struct):
 
         ncols = len(max(rows, key=len))
         # get the string itemsize so the max string fits
-        width = max(rows, key=lambda x: x.itemsize).itemsize
+        width = max(r.itemsize // 4 if r.dtype.char == "U" else r.itemsize for r in rows)
 
         # set fill value
         if fill_value is not None:
             # match to dtype
             if isinstance(fill_value, str):
-                if dt == "S":
-                    inv = fill_value.encode()
+                inv = fill_value.encode() if dt == "S" else fill_value
             elif isinstance(fill_value, bytes):
-                if dt == "U":
-                    inv = fill_value.decode()
+                inv = fill_value.decode() if dt == "U" else fill_value
             else:
                 inv = str(fill_value)
         else:
@@ -7636,9 +7634,7 @@ class Dataset(Struct):
             inv = INVALID_DICT[np.dtype(dt).num]
 
         # make sure final array itemsize can fit all strings
-        if dt == "U":
-            width /= 4
-        final_dt = dt + str(width)
+        final_dt = dt + str(max(width, len(inv)))
 
         # build final dict, column by column
         # this is slow for larger data because it has to loop over rows
-- 
2.43.0


From 31cd6b6bcb92d769f52043180b3f80378c11c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:03 +0000
Subject: [PATCH 078/142] fix: imatrix_make(order='C') raised unless the matrix
 is square, and then took its rows for columns

---
 riptable/rt_imatrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_imatrix.py b/riptable/rt_imatrix.py
index 92d0d08..4d2d6b8 100644
--- a/riptable/rt_imatrix.py
+++ b/riptable/rt_imatrix.py
@@ -55,7 +55,8 @@ class IMatrix:
         self._imatrix = vstack([*ds[colnames].values()], dtype=dtype, order=order)
 
         # make a dataset from the matrix
-        self._dataset = TypeRegister.Dataset({c: self._imatrix[:, i] for i, c in enumerate(colnames)})
+        columns = self._imatrix.T if order == "F" else self._imatrix
+        self._dataset = TypeRegister.Dataset({c: columns[i] for i, c in enumerate(colnames)})
 
     def __getitem__(self, fld):
         """
-- 
2.43.0


From 27c37ac794effa82ac11f006c7db780474947ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:28 +0000
Subject: [PATCH 079/142] fix: quantile raised IndexError for the lower and
 higher interpolation methods

---
 riptable/rt_bin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 637e0d2..7bc6075 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -115,9 +115,9 @@ def quantile(x, q, interpolation_method: str = "fraction"):
             if interpolation_method == "fraction":
                 score = _interpolate(_val(int(idx)), _val(int(idx) + 1), idx % 1)
             elif interpolation_method == "lower":
-                score = _val(np.floor(idx))
+                score = _val(int(np.floor(idx)))
             elif interpolation_method == "higher":
-                score = _val(np.ceil(idx))
+                score = _val(int(np.ceil(idx)))
             else:
                 raise ValueError("interpolation_method can only be 'fraction', 'lower' or 'higher'")
 
-- 
2.43.0


From 04a058844cf39d8c7fca58edad77d5afe09538db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:28 +0000
Subject: [PATCH 080/142] fix: qcut raised when the labels are an array

---
 riptable/rt_bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 7bc6075..31c2daa 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -388,7 +388,7 @@ def _bins_to_cuts_new(
             # first label is always clipped
             if lsort is not None:
                 temp = [CLIPPED_LONG_NAME]
-                labels = temp + labels
+                labels = temp + list(labels)
 
         # if not is_categorical_dtype(labels):
         #    labels = Categorical(labels, categories=labels, ordered=True)
-- 
2.43.0


From 7766821d3c83ef52da1d56da95177512c1aa5824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:28 +0000
Subject: [PATCH 081/142] fix: cut and qcut put integers next to a fractional
 edge in the wrong bin

---
 riptable/rt_bin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 31c2daa..1bd9959 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -362,6 +362,10 @@ def _bins_to_cuts_new(
 
     bins = bins.astype(np.float64)
 
+    # integers are compared with truncated or wrapped edges, if that changes an edge force upcast
+    if x.dtype.kind in "iu" and (bins != np.trunc(bins)).any():
+        x = x.view(TypeRegister.FastArray).astype(np.float64)
+
     if lsort is not None:
         ids = rc.BinsToCutsSorted(x, bins, lsort, counts, mode)
         # print("bins sorted",ids, x, bins)
-- 
2.43.0


From abebfb63edd7e4eef14af40fa8fad4fbb640a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:28 +0000
Subject: [PATCH 082/142] fix: cut put invalid integers of NumPy arrays in the
 first bin when an edge is infinite

---
 riptable/rt_bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 1bd9959..24f1701 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -372,7 +372,7 @@ def _bins_to_cuts_new(
     else:
         # check for int compaing to inf, if so force upcast
         if bins[0] == -np.inf or bins[-1] == np.inf:
-            x = x.astype(np.float64)
+            x = x.view(TypeRegister.FastArray).astype(np.float64)
         ids = rc.BinsToCutsBSearch(x, bins, mode)
         # print("bins bsearch",ids, x, bins)
 
-- 
2.43.0


From 59d96dd707abb7891decfbc607d66208da19dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:28 +0000
Subject: [PATCH 083/142] fix: Dataset.quantile dropped the largest value of
 integer columns with invalid values

---
 riptable/rt_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_utils.py b/riptable/rt_utils.py
index ff89ee1..f54fa7f 100644
--- a/riptable/rt_utils.py
+++ b/riptable/rt_utils.py
@@ -832,7 +832,7 @@ def quantile(arr: Optional[np.ndarray], q: List[float] = None):
             # pick a subset removing the invalid
             notvalid = count - cvalid
             if arr_sort.dtype.char in NumpyCharTypes.Integer:
-                valid = arr_sort[notvalid:-1]
+                valid = arr_sort[notvalid:]
             else:
                 valid = arr_sort[0:cvalid]
 
-- 
2.43.0


From 1f33b60e04c5d61a8cbdefc588beb151be57dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:00 +0000
Subject: [PATCH 084/142] fix: operators on strided or reversed arrays did not
 recognise invalid integers

---
 riptable/rt_fastarray.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index cdc487f..3275cdd 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4753,6 +4753,16 @@ class FastArray(np.ndarray):
         args: List[Any] = []
         for input in inputs:
             if isinstance(input, np.ndarray):
+                if (
+                    method in ("__call__", "reduce")
+                    and ufunc.nin == 2
+                    and type(input) in (FastArray, np.ndarray)
+                    and input.ndim == 1
+                    and input.strides[0] != input.itemsize
+                    and input.dtype.num <= 13
+                ):
+                    # a strided view: numpy does not know about integer invalids, so use a contiguous copy
+                    input = input.copy()
                 is_not_supported = self._is_not_supported(input)
                 if is_not_supported:
                     # TODO enable this warning in a future minor release
-- 
2.43.0


From 2b52cbcb18b7d52e6c8aa02d71f6b8bd2121884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:00 +0000
Subject: [PATCH 085/142] fix: isnotnan, isnotfinite and isnanorzero did not
 recognise invalid integers of NumPy arrays

---
 riptable/rt_numpy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index cf78061..f6441e0 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -4416,7 +4416,7 @@ def isnotnan(*args, **kwargs) -> FastArray | bool:
     try:
         return args[0].isnotnan(**kwargs)
     except:
-        return ~np.isnan(*args, **kwargs)
+        return ~_unary_func(np.isnan, *args, **kwargs)
 
 
 # -------------------------------------------------------
@@ -4472,7 +4472,7 @@ def isnanorzero(*args, **kwargs) -> FastArray | bool:
         return args[0].isnanorzero(**kwargs)
     except:
         # slow way
-        result = np.isnan(*args, **kwargs)
+        result = _unary_func(np.isnan, *args, **kwargs)
         result += args[0] == 0
         return result
 
@@ -4592,7 +4592,7 @@ def isnotfinite(*args, **kwargs) -> FastArray | bool:
     try:
         return args[0].isnotfinite(**kwargs)
     except:
-        return ~np.isfinite(*args, **kwargs)
+        return ~_unary_func(np.isfinite, *args, **kwargs)
 
 
 # -------------------------------------------------------
-- 
2.43.0


From 6cb977d137d264fac43d8799e754589dbfeadd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:12 +0000
Subject: [PATCH 086/142] fix: np.invert of an integer FastArray with out=
 raised AttributeError

---
 riptable/rt_ledger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_ledger.py b/riptable/rt_ledger.py
index 83eec59..b7a57ce 100644
--- a/riptable/rt_ledger.py
+++ b/riptable/rt_ledger.py
@@ -251,7 +251,7 @@ class MathLedger(Struct):
                     MATH_OPERATION.BITWISE_XOR,
                     final_num,
                 )
-            elif tupleargs.dtype == bool:
+            elif not isinstance(tupleargs, tuple) and tupleargs.dtype == bool:
                 return cls._BASICMATH_TWO_INPUTS((tupleargs, True), MATH_OPERATION.BITWISE_XOR, final_num)
 
         if cls.Verbose > 1:
-- 
2.43.0


From 09ad159102c93ac1ecd93c1221ed2e5d2058b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:12 +0000
Subject: [PATCH 087/142] fix: where read the wrong elements of a strided or
 reversed condition

---
 riptable/rt_numpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index f6441e0..d45a388 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3097,6 +3097,10 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
         # NOTE: believe numpy just flips it to boolean using astype, where object arrays handled differently with None and 0
         condition = condition != 0
 
+    if condition.strides[0] != condition.itemsize:
+        # rc.Where expects a contiguous condition
+        condition = condition.copy()
+
     # this is the normal 3 argument where
 
     # see if we can accelerate where
-- 
2.43.0


From 1c5306f9fb8ca7b1dfa6bcb23467f8348bc398f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:27 +0000
Subject: [PATCH 088/142] fix: Dataset.nanmin and nanmax raised AttributeError
 with a string column

---
 riptable/rt_dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 9b6a970..d2a3740 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -33,7 +33,7 @@ from typing_extensions import Self
 import numpy as np
 import numpy.typing as npt
 
-from . import rt_merge
+from . import rt_merge, rt_numpy
 from .rt_datetime import (
     Date,
     DateSpan,
@@ -6667,11 +6667,11 @@ class Dataset(Struct):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmedian, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-    def nanmin(self, axis=0, as_dataset=True, fill_value=min):
+    def nanmin(self, axis=0, as_dataset=True, fill_value=rt_numpy.min):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmin, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-    def nanmax(self, axis=0, as_dataset=True, fill_value=max):
+    def nanmax(self, axis=0, as_dataset=True, fill_value=rt_numpy.max):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmax, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-- 
2.43.0


From 422c7aae5c441f807e641769873edb23f155d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:27 +0000
Subject: [PATCH 089/142] fix: nanargmin and nanargmax raised AttributeError
 for NumPy arrays and Datasets with axis=None

---
 riptable/rt_numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index d45a388..e0135c5 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3495,7 +3495,7 @@ def argmin(*args, **kwargs) -> int:
 # -------------------------------------------------------
 def nanargmax(*args, **kwargs) -> int:
     args = _convert_cat_args(args)
-    if isinstance(args[0], np.ndarray):
+    if isinstance(args[0], TypeRegister.FastArray):
         return args[0].nanargmax(**kwargs)
     return np.nanargmax(*args, **kwargs)
 
@@ -3503,7 +3503,7 @@ def nanargmax(*args, **kwargs) -> int:
 # -------------------------------------------------------
 def nanargmin(*args, **kwargs) -> int:
     args = _convert_cat_args(args)
-    if isinstance(args[0], np.ndarray):
+    if isinstance(args[0], TypeRegister.FastArray):
         return args[0].nanargmin(**kwargs)
     return np.nanargmin(*args, **kwargs)
 
-- 
2.43.0


From caff6ac2b6a3a6b700385ea7137a8ae923b3a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:27 +0000
Subject: [PATCH 090/142] fix: mean, var and std with a filter used the raw
 value of invalid integers

---
 riptable/rt_fastarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 3275cdd..3de7dbb 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -3157,6 +3157,10 @@ class FastArray(np.ndarray):
         if not self.iscomputable():
             return np.NaN
 
+        if myFunc in (_fmean, _fvar, _fstd) and self.dtype.char in NumpyCharTypes.AllInteger and self.isnan().any():
+            # an invalid integer makes the result nan, as it does without a filter
+            self = self.astype(np.float64)
+
         if dtype is not None:
             return dtype(myFunc(self, filter))
 
-- 
2.43.0


From a7c5f5d7c07650850543e10152f31df7217c1f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:27 +0000
Subject: [PATCH 091/142] fix: sum raised TypeError when called with its
 documented filter keyword

---
 riptable/rt_numpy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index e0135c5..8a29511 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3388,6 +3388,12 @@ def sum(*args, filter=None, dtype=None, **kwargs) -> np.number | Dataset:
     """
     kwargs = _np_keyword_wrapper(filter=filter, dtype=dtype, **kwargs)
     args = _convert_cat_args(args)
+    if filter is not None and isinstance(args[0], TypeRegister.FastArray):
+        # ndarray.sum has no filter keyword
+        kwargs.pop("filter")
+        if len(filter) != len(args[0]):
+            raise ValueError("Filter and input not the same length.")
+        return args[0][filter].sum(*args[1:], **kwargs)
     if hasattr(args[0], "sum"):
         return args[0].sum(*args[1:], **kwargs)
     return builtins.sum(*args, **kwargs)
-- 
2.43.0


From 94a4dff491236e05cd5fb293e4fee49a5697964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:55 +0000
Subject: [PATCH 092/142] fix: FastArray.astype of a strided view did not
 convert invalid values

A non-contiguous array was handed to NumPy, which converts the integer
sentinels as ordinary numbers, so ds[::2].astype(float) turned missing values
into -2147483648.0.
---
 riptable/rt_fastarray.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 3de7dbb..6a4356f 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1419,11 +1419,14 @@ class FastArray(np.ndarray):
         # 19 = UNICODE string
         to_num = np.dtype(dtype).num
 
-        # check for contiguous in one or two dimensions
-        if self.flags.f_contiguous or self.flags.c_contiguous:
-            if order == "K" and subok and copy and self.dtype.num <= 13 and to_num <= 13:
+        if order == "K" and subok and copy and self.dtype.num <= 13 and to_num <= 13:
+            # check for contiguous in one or two dimensions
+            if self.flags.f_contiguous or self.flags.c_contiguous:
                 # perform a safe conversion understanding sentinels
                 return TypeRegister.MathLedger._AS_FA_TYPE(self, to_num)
+            elif self.ndim == 1:
+                # strided view: make it contiguous first so that sentinels are still understood
+                return TypeRegister.MathLedger._AS_FA_TYPE(self.copy(), to_num)
 
         # punt to numpy
         result = TypeRegister.MathLedger._ASTYPE(super(FastArray, self), dtype, order, casting, subok, copy)
-- 
2.43.0


From 822ef7f6bee8105b87be88db1366a6baa12b9121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:17 +0000
Subject: [PATCH 093/142] fix: putmask with a strided mask or strided values
 read the wrong elements

---
 riptable/rt_numpy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 8a29511..995a2ed 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -4758,6 +4758,11 @@ def putmask(a, mask, values) -> FastArray:
         # BUG what about categoricals, etc
         return a.putmask(mask, values)
     except:
+        # rc.PutMask reads the raw buffers of the mask and the values: they must be contiguous
+        if isinstance(mask, np.ndarray) and not (mask.flags.c_contiguous or mask.flags.f_contiguous):
+            mask = mask.copy()
+        if isinstance(values, np.ndarray) and not (values.flags.c_contiguous or values.flags.f_contiguous):
+            values = values.copy()
         # false is returned on failure
         if not rc.PutMask(a, mask, values):
             # final attempt use numpy
-- 
2.43.0


From 7e45eacd3075d02c29c9a99ff3d32ef8c4e994cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:05 +0000
Subject: [PATCH 094/142] fix: interp and interp_extrap read the wrong elements
 of a strided x

---
 riptable/rt_numpy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 995a2ed..ffb55b8 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5424,6 +5424,9 @@ def interp(x, xp, fp):
         warnings.warn("rt.interp is downcasting to a float32 to match first array", stacklevel=2)
         xp = xp.astype(np.float32)
         fp = fp.astype(np.float32)
+    # InterpExtrap2d reads x as a contiguous buffer
+    if not x.flags.c_contiguous:
+        x = x.copy()
     return rc.InterpExtrap2d(x, xp, fp, 1)
 
 
@@ -5446,6 +5449,9 @@ def interp_extrap(x, xp, fp):
     * riptable version handles floats or doubles, wheras np is always a double
     * 2d mode is auto-detected based on `xp`/`fp`
     """
+    # InterpExtrap2d reads x as a contiguous buffer
+    if not x.flags.c_contiguous:
+        x = x.copy()
     return rc.InterpExtrap2d(x, xp, fp, 0)
 
 
-- 
2.43.0


From a7dbae9a1323423cc66badee3fdc12722f2bb4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:05 +0000
Subject: [PATCH 095/142] fix: differs and transitions of a strided view
 compared the wrong elements

---
 riptable/rt_fastarray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 6a4356f..2a721ae 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4143,6 +4143,11 @@ class FastArray(np.ndarray):
         if periods == 0:
             raise ValueError("periods of 0 is invalid for transitions")
 
+        # the low level comparison reads contiguous buffers
+        if not self.flags.c_contiguous:
+            self = self.copy()
+            result = result.copy()
+
         if periods > 0:
             TypeRegister.MathLedger._BASICMATH_TWO_INPUTS(
                 (self[periods:], self[:-periods], result[periods:]), math_op, 0
-- 
2.43.0


From 99122091f7785790b61ebedf30202cf80eff68e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:05 +0000
Subject: [PATCH 096/142] fix: differs of a string array returned the elements
 that do differ

It returned the same mask as transitions instead of flagging equal elements,
and both flagged the elements at the edge that have nothing to be compared
with, unlike the numeric types.
---
 riptable/rt_fastarray.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 2a721ae..33f2af1 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4226,7 +4226,12 @@ class FastArray(np.ndarray):
                    False, False])
         """
         if self.dtype.num > 13:
-            result = self != self.shift(periods)
+            result = self == self.shift(periods)
+            # no element to compare with at the edge
+            if periods > 0:
+                result[:periods] = False
+            else:
+                result[periods:] = False
             if fancy:
                 return bool_to_fancy(result)
             return result
@@ -4258,6 +4263,11 @@ class FastArray(np.ndarray):
         """
         if self.dtype.num > 13:
             result = self != self.shift(periods)
+            # no element to compare with at the edge
+            if periods > 0:
+                result[:periods] = False
+            else:
+                result[periods:] = False
             if fancy:
                 return bool_to_fancy(result)
             return result
-- 
2.43.0


From cea5b22874aad89191c196116499fb729a3880cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:34 +0000
Subject: [PATCH 097/142] fix: cummin/cummax(skipna=False) of integers forgot
 an invalid value

The sentinel took part in the comparison, so the running maximum of signed
(and running minimum of unsigned) integers restarted after a missing value.
---
 riptable/rt_fastarraynumba.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarraynumba.py b/riptable/rt_fastarraynumba.py
index 7a1b9be..e8247e3 100644
--- a/riptable/rt_fastarraynumba.py
+++ b/riptable/rt_fastarraynumba.py
@@ -346,7 +346,8 @@ def nb_cummin_int(arr: np.ndarray, ret: np.ndarray, inv, skipna):
         running_min = arr[0]
         for i in range(len(arr)):
             val = arr[i]
-            if val == inv or val < running_min:
+            # once invalid, the running minimum stays invalid (as it does for floats)
+            if running_min != inv and (val == inv or val < running_min):
                 running_min = val
             ret[i] = running_min
 
@@ -394,7 +395,8 @@ def nb_cummax_int(arr: np.ndarray, ret: np.ndarray, inv, skipna):
         running_max = arr[0]
         for i in range(len(arr)):
             val = arr[i]
-            if val == inv or val > running_max:
+            # once invalid, the running maximum stays invalid (as it does for floats)
+            if running_max != inv and (val == inv or val > running_max):
                 running_max = val
             ret[i] = running_max
 
-- 
2.43.0


From 7047a5b947c4a2546b231a8abb9e29008e83d152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:24 +0000
Subject: [PATCH 098/142] fix: FastArray.from_arrow(auto_widen=True) filled
 nulls with the invalid value of the narrow dtype

---
 riptable/rt_fastarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 33f2af1..205b4c2 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -5830,6 +5830,8 @@ class FastArray(np.ndarray):
                     # Widen the dtype of the output array.
                     output_dtype = min_scalar_type(arr_rt_inv, promote_invalid=True)
                     arr_pa_dtype_widened = pa.from_numpy_dtype(output_dtype)
+                    # Nulls must read as invalid in the widened dtype.
+                    arr_rt_inv = INVALID_DICT[np.dtype(output_dtype).num]
 
             # Create the output array, performing a widening conversion + filling in nulls with the riptable invalid if necessary.
             # TODO: This could be faster -- if there's a way to get a numpy boolean array from a pyarrow array's null-mask,
-- 
2.43.0


From 9e78930fa9e997057807dfff20ea869c5b742cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:24 +0000
Subject: [PATCH 099/142] fix: FastArray.from_arrow of a sliced
 fixed-size-binary array returned the whole buffer

---
 riptable/rt_fastarray.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 205b4c2..ca0e431 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -5923,10 +5923,14 @@ class FastArray(np.ndarray):
             # Calling pa.Array.to_numpy with zero_copy=True raises an error with fixed sized binary type.
             # Calling pa.Array.to_numpy with zero_copy=False returns a numpy array where types are python bytes objects.
             # Workaround below creates the numpy buffer of type "S" manually.
-            buf = np.frombuffer(
-                arr.buffers()[1],
-                dtype="S" + str(arr.type.byte_width),
-            )
+            # The buffer belongs to the whole array: a slice starts at its own offset within it.
+            buf_dtype = np.dtype("S" + str(arr.type.byte_width))
+            if len(arr) == 0:
+                buf = np.empty(0, dtype=buf_dtype)
+            else:
+                buf = np.frombuffer(
+                    arr.buffers()[1], dtype=buf_dtype, count=len(arr), offset=arr.offset * buf_dtype.itemsize
+                )
 
             if writable and arr.null_count == 0:  # already made a copy if null_count != 0
                 result = FastArray(np.copy(buf))
-- 
2.43.0


From 4c66b7df82a9f6f1b529984ed302d8f9d01b344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:35 +0000
Subject: [PATCH 100/142] fix: DateTimeNano.from_arrow shifted the instants of
 timestamps in a non-UTC time zone

---
 riptable/rt_datetime.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 003dd30..3b82204 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6401,7 +6401,8 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
 
         # Convert the pyarrow array's timezone (id from tz database) to a riptable TZ string,
         # then set that on the output array.
-        from_tz_str = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(arr.type.tz)
+        # The values themselves are always UTC instants, whatever the timezone of the array.
+        to_tz_str = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(arr.type.tz)
 
         # Create a view of the underlying data as int64 epoch-nanoseconds.
         arr_int64 = arr.view(pa.int64())
@@ -6410,7 +6411,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         # depending on which options the caller has specified.
         if arr.null_count == 0:
             arr_int64_np = arr_int64.to_numpy(zero_copy_only=not writable, writable=writable)
-            return DateTimeNano(arr_int64_np, from_tz=from_tz_str)
+            return DateTimeNano(arr_int64_np, from_tz="UTC", to_tz=to_tz_str)
         elif zero_copy_only:
             raise RuntimeError("Unable to perform zero-copy conversion from an input array containing nulls.")
         else:
@@ -6433,7 +6434,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
             # TODO: If writable=True here, it seems like we'll do a 2nd copy of the data? Is there any way to avoid it?
             arr_int64_np = arr_int64_filled.to_numpy(zero_copy_only=not writable, writable=writable)
 
-            return DateTimeNano(arr_int64_np, from_tz=from_tz_str)
+            return DateTimeNano(arr_int64_np, from_tz="UTC", to_tz=to_tz_str)
 
     def to_arrow(
         self,
@@ -6461,7 +6462,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         import pyarrow as pa
 
         # Get the tz db / ICU timezone name.
-        tz_name = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(self._timezone._from_tz)
+        tz_name = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(self._timezone._to_tz)
 
         # Create the corresponding pyarrow type.
         arr_type = pa.timestamp("ns", tz=tz_name)
-- 
2.43.0


From 2514af9822242f686cb97530b24d7b29110cc31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:24 +0000
Subject: [PATCH 101/142] fix: from_pandas turned missing strings into the text
 'None' or '<NA>'

---
 riptable/Utils/pandas_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/Utils/pandas_utils.py b/riptable/Utils/pandas_utils.py
index 4774ba7..4a36131 100644
--- a/riptable/Utils/pandas_utils.py
+++ b/riptable/Utils/pandas_utils.py
@@ -162,6 +162,9 @@ def pandas_series_to_riptable(series: Union["pd.Series", "pd.Categorical"], tz:
                 # NaN in it so convert to float64.
                 new_col = np.asarray(series, dtype="f8")
             else:
+                if len(notnull) < len(series):
+                    # A missing string is an empty string, not the text of the null marker.
+                    series = series.where(series.notnull(), "")
                 try:
                     new_col = np.asarray(series, dtype="S")
                 except UnicodeEncodeError:
-- 
2.43.0


From f72a1e78f1652a55e2476f95c2467cee91051101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:24 +0000
Subject: [PATCH 102/142] fix: to_pandas exported a missing DateTimeNano as
 1970-01-01

---
 riptable/Utils/pandas_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/Utils/pandas_utils.py b/riptable/Utils/pandas_utils.py
index 4a36131..eb25242 100644
--- a/riptable/Utils/pandas_utils.py
+++ b/riptable/Utils/pandas_utils.py
@@ -210,7 +210,8 @@ def fastarray_to_pandas_series(
         categories = _to_unicode_if_string(arr.category_array) if unicode else arr.category_array
         out = pd.Series(pd.Categorical.from_codes(codes, categories=categories))
     elif isinstance(arr, TypeRegister.DateTimeNano):
-        utc_datetime = pd.DatetimeIndex(arr._np, tz="UTC")
+        # Both zero and the int64 invalid are missing times.
+        utc_datetime = pd.DatetimeIndex(np.where(arr.isnan()._np, pd.NaT.value, arr._np), tz="UTC")
         tz_datetime = utc_datetime.tz_convert(arr._timezone._to_tz)
         out = pd.Series(tz_datetime)
     elif isinstance(arr, TypeRegister.TimeSpan):
-- 
2.43.0


From 1e3b0ddb3936ed038f9639d1fb448963eeaa770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:24 +0000
Subject: [PATCH 103/142] fix: unpickling an uncompressed unicode array
 returned bytes

---
 riptable/rt_fastarray.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index ca0e431..d510258 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -253,6 +253,14 @@ def FA_FROM_UINT8(uint8arr):
     return rc.CompressDecompressArrays([uint8arr], 1)[0]
 
 
+# --------------------------------------------------------------
+def FA_FROM_NDARRAY(arr, cls):
+    """
+    Used in de-pickling
+    """
+    return arr.view(cls)
+
+
 # --------------------------------------------------------------
 def FA_FROM_BYTESTRING(bytestring):
     """
@@ -865,13 +873,7 @@ class FastArray(np.ndarray):
             carr = rc.CompressDecompressArrays([self], 0)[0]
             return (FA_FROM_UINT8, (carr.view(np.ndarray),))
         else:
-            return (
-                cls.__new__,
-                (
-                    cls,
-                    self.view(np.ndarray),
-                ),
-            )
+            return (FA_FROM_NDARRAY, (self.view(np.ndarray), cls))
 
     # --------------------------------------------------------------------------
     @classmethod
-- 
2.43.0


From 8f5f06702bb71fb1dbcfed8cf0b3b958b18cf40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:23 +0000
Subject: [PATCH 104/142] fix: an unnamed Categorical could not be pickled

---
 riptable/rt_fastarray.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index d510258..7d35bfc 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -859,9 +859,8 @@ class FastArray(np.ndarray):
 
         # check if subclassed routine knows how to serialize itself
         if hasattr(self, "_build_sds_meta_data"):
-            try:
-                name = self._name
-            except:
+            name = getattr(self, "_name", None)
+            if name is None:
                 name = "unknown"
 
             tups = self._build_sds_meta_data(name)
-- 
2.43.0


From 4d5f32858ff8d9f090d14a92f9b690429ecf9a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:55 +0000
Subject: [PATCH 105/142] fix: Categorical.to_arrow of a base-0 Categorical
 shifted every label by one

---
 riptable/rt_categorical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index d2c0bd4..12d4bba 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5774,13 +5774,13 @@ class Categorical(GroupByOps, FastArray):
             if not invalids_mask.any():
                 invalids_mask = None
 
-            # For self.base_index == 0, we can use iKey directly;
-            # for self.base_index == 1, we need to create a new 0-based iKey to pass to pyarrow.
+            # The grouping's iKey is 1-based whatever the base index of this Categorical,
+            # so we need to create a new 0-based iKey to pass to pyarrow.
             indices = self.grouping.ikey
-            if self.base_index != 0:
+            if len(indices) > 0:
                 # It's important we DON'T do this in-place, as we don't want to modify the ikey array,
                 # as that'll break this Categorical instance.
-                indices = self.grouping.ikey - self.base_index
+                indices = self.grouping.ikey - 1
                 if invalids_mask is not None:
                     # Now, in-place update the `indices` array by setting out-of-bounds indices (e.g. -1)
                     # for the invalids to 0. These will be masked out anyway, so it doesn't much matter which
-- 
2.43.0


From c15a26bc44c8a50e0f682f03bb2fd4be4378709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:36 +0000
Subject: [PATCH 106/142] fix: a row-wise reduction (axis=1) converted the
 columns of the Dataset it read

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index d2a3740..e99da63 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6553,7 +6553,7 @@ class Dataset(Struct):
         if axis == 1:
             if fill_value is None:
                 # new fast path
-                return func(self.imatrix_make(), axis=1, **kwargs)
+                return func(self.imatrix_make(inplace=False), axis=1, **kwargs)
 
             if not any(noncomp):
                 # does not respect noncomputable cols.
-- 
2.43.0


From 36d1a7131a05e418d9f288223a3d82423d3aaf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:11 +0000
Subject: [PATCH 107/142] fix: the copy of an ordered Categorical was not
 ordered

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 12d4bba..c274cde 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1760,6 +1760,7 @@ class Categorical(GroupByOps, FastArray):
                             grouping = Grouping(
                                 index,
                                 categories=_from_categorical.categories_as_dict(),
+                                ordered=bool(_from_categorical._ordered),
                                 sort_display=_sort_gb,
                                 base_index=base_index,
                                 categorical=True,
-- 
2.43.0


From 2b90dc8d3671c1d566fa4679f2b6c880c0233c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:11 +0000
Subject: [PATCH 108/142] fix: shift(0) returned the array itself, not a new
 array

---
 riptable/rt_fastarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 7d35bfc..6d7f468 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4107,7 +4107,7 @@ class FastArray(np.ndarray):
         """
 
         if periods == 0:
-            return self
+            return self.copy()
 
         if invalid is None:
             if isinstance(self, TypeRegister.Categorical):
-- 
2.43.0


From ee46ee345bfac872dcbbe3a83bf852bf8eea4161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:50 +0000
Subject: [PATCH 109/142] fix: copy.deepcopy of a Categorical lost its
 categories

---
 riptable/rt_categorical.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index c274cde..cf61cba 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3256,6 +3256,12 @@ class Categorical(GroupByOps, FastArray):
 
         return cat_copy
 
+    def __copy__(self):
+        return self.copy()
+
+    def __deepcopy__(self, memo):
+        return self.copy()
+
     def set_valid(self, filter: Optional[np.ndarray] = None) -> "Categorical":
         """
         Apply a filter to the categorical's values. If values no longer occur in the uniques,
-- 
2.43.0


From 850887ee895cf175b718b4bc1dc5b0bbea80ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:00 +0000
Subject: [PATCH 110/142] fix: set_timezone on a deep copy changed the time
 zone of the source

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 3b82204..3abc017 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -614,7 +614,7 @@ class DateTimeBase(FastArray):
             return
         from_peer = isinstance(obj, DateTimeBase)
         self._display_length = obj._display_length if from_peer else DisplayLength.Long
-        self._timezone = obj._timezone if from_peer else TypeRegister.TimeZone(from_tz="UTC", to_tz="UTC")
+        self._timezone = obj._timezone.copy() if from_peer else TypeRegister.TimeZone(from_tz="UTC", to_tz="UTC")
 
     # ------------------------------------------------------------
     @property
-- 
2.43.0


From 286734be2dd658e1de8848462ac9743ed8496f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:00 +0000
Subject: [PATCH 111/142] fix: copy.copy of a Dataset shared its columns
 container with the source

---
 riptable/rt_struct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 953a6b8..9083b72 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -1497,6 +1497,10 @@ class Struct:
         return st
 
     # --------------------------------------------------------
+    def __copy__(self):
+        return self.copy(deep=False)
+
+    # -------------------------------------------------------
     def copy(self, deep: bool = True):
         """
         Returns a shallow or deep copy of the `Struct`.
-- 
2.43.0


From 0af5a14addb6cae1b5473b1e5b2607abd73ce801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:47 +0000
Subject: [PATCH 112/142] fix: a deep copy of a Categorical shared its category
 array with the source

---
 riptable/rt_categorical.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index cf61cba..948ee00 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3232,9 +3232,8 @@ class Categorical(GroupByOps, FastArray):
         # TODO: copy grouping object and pass to new categorical
         # unless filter is provided, don't trim unused categories
 
-        # NOTE: there was a deep grouping copy here (removed)
-        # and another deep copy when the class is made
-        cat_copy = self._categories_wrap.copy(deep=False)
+        # the grouping of the new instance is built from these categories
+        cat_copy = self._categories_wrap.copy(deep=deep)
 
         if deep:
             # TJD something off about this since grouping will copy the ikey and thus ignore this copy
-- 
2.43.0


From 69d94625334e1c2308e650ea6752b91054bf7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:24 +0000
Subject: [PATCH 113/142] fix: strided filters and keys gave wrong groups
 (kernels read them as contiguous memory)

---
 riptable/rt_numpy.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index ffb55b8..baca3a8 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1192,7 +1192,7 @@ def _ismember_align_multikey(a, b):
 
 def _ascontiguous(arr):
     """The membership kernels do not look at strides: hand them contiguous memory."""
-    return arr if arr.flags.c_contiguous else arr.copy()
+    return arr.copy() if isinstance(arr, np.ndarray) and not arr.flags.c_contiguous else arr
 
 
 @_args_to_fast_arrays("a", "b")
@@ -1507,7 +1507,7 @@ def unique32(list_keys: List[np.ndarray], hintSize: int = 0, filter: Optional[np
         the array contains the INDEX to the first occurence of the unique value.
         the second array contains the INDEX to the last occurence of the unique value.
     """
-    return rc.MultiKeyUnique32(list_keys, hintSize, filter)
+    return rc.MultiKeyUnique32(list_keys, hintSize, filter if filter is None else _ascontiguous(filter))
 
 
 # -------------------------------------------------------
@@ -1530,7 +1530,8 @@ def combine_filter(key, filter) -> FastArray:
     -----
     This routine can run in parallel.
     """
-    return rc.CombineFilter(key, filter)
+    # the kernel does not look at strides
+    return rc.CombineFilter(_ascontiguous(key), _ascontiguous(filter))
 
 
 # -------------------------------------------------------
@@ -1565,7 +1566,9 @@ def combine_accum1_filter(key1, unique_count1: int, filter=None):
      'unique_count': 5}
 
     """
-    iKey, iFirstKey, unique_count = rc.CombineAccum1Filter(key1, unique_count1, filter)
+    if filter is not None:
+        filter = _ascontiguous(filter)
+    iKey, iFirstKey, unique_count = rc.CombineAccum1Filter(_ascontiguous(key1), unique_count1, filter)
     mkdict = {"iKey": iKey, "iFirstKey": iFirstKey, "unique_count": unique_count}
     return mkdict
 
@@ -1592,7 +1595,9 @@ def combine_accum2_filter(key1, key2, unique_count1: int, unique_count2: int, fi
     bin is a 1 based index array with each False value setting the index to 0
     nCountGroup is INT32 array with size = to (unique_count1 + 1)*(unique_count2 + 1)
     """
-    return rc.CombineAccum2Filter(key1, key2, unique_count1, unique_count2, filter)
+    if filter is not None:
+        filter = _ascontiguous(filter)
+    return rc.CombineAccum2Filter(_ascontiguous(key1), _ascontiguous(key2), unique_count1, unique_count2, filter)
 
 
 # -------------------------------------------------------
@@ -1617,7 +1622,7 @@ def combine2keys(key1, key2, unique_count1: int, unique_count2: int, filter=None
     bin is a 1 based index array with each False value setting the index to 0
     nCountGroup is INT32 array with size = to (unique_count1 + 1)*(unique_count2 + 1)
     """
-    iKey, nCountGroup = rc.CombineAccum2Filter(key1, key2, unique_count1, unique_count2, filter)
+    iKey, nCountGroup = combine_accum2_filter(key1, key2, unique_count1, unique_count2, filter)
     mkdict = {"iKey": iKey, "nCountGroup": nCountGroup}
     return mkdict
 
@@ -2095,6 +2100,9 @@ def groupbyhash(
         if len(common_len) == 1:
             common_len = common_len.pop()
             if common_len != 0:
+                if filter is not None:
+                    # the kernel does not look at the strides of the filter
+                    filter = _ascontiguous(filter)
                 iKey, iFirstKey, unique_count = rc.MultiKeyGroupBy32(
                     list_arrays, hint_size, filter, hash_mode, cutoffs=cutoffs
                 )
@@ -2206,7 +2214,9 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
                 list_arrays = list_arrays[::-1]
         else:
             # just one array (no need to make a record array)
-            value_array = list_arrays[0]
+            # GroupFromLexSort does not look at strides
+            value_array = _ascontiguous(list_arrays[0])
+            list_arrays = [value_array]
 
         index = None
 
-- 
2.43.0


From a25f7e2ddf9135ec31929b2d4e11472a3d50f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:24 +0000
Subject: [PATCH 114/142] fix: timewindow_sum/prod of a strided view read the
 wrong elements

---
 riptable/rt_fastarray.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 6d7f468..a856bc7 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2634,6 +2634,13 @@ class FastArray(np.ndarray):
     #############################################
     # TimeWindow section (cannot handle strides), time_array must be INT64
     #############################################
+    def _timewindow(self, time_array, func, time_dist):
+        # the kernel reads both arrays as contiguous memory
+        arr = self if self.flags.c_contiguous else self.copy()
+        if isinstance(time_array, np.ndarray) and not time_array.flags.c_contiguous:
+            time_array = time_array.copy()
+        return rc.TimeWindow(arr, time_array, func, time_dist)
+
     def timewindow_sum(self, time_array, time_dist):
         """
         The input array must be int64 and sorted with ever increasing values.
@@ -2651,7 +2658,7 @@ class FastArray(np.ndarray):
         FastArray([ 0,  1,  3,  6, 10, 15, 21, 27, 33, 39], dtype=int64)
 
         """
-        return rc.TimeWindow(self, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_SUM, time_dist)
+        return self._timewindow(time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_SUM, time_dist)
 
     def timewindow_prod(self, time_array, time_dist):
         """
@@ -2669,7 +2676,7 @@ class FastArray(np.ndarray):
         >>> a.timewindow_prod(a,5)
         FastArray([    0,     0,     0,     0,     0,     0,   720,  5040, 20160, 60480], dtype=int64)
         """
-        return rc.TimeWindow(self, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_PROD, time_dist)
+        return self._timewindow(time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_PROD, time_dist)
 
     #############################################
     # Bottleneck section (only handles int32/int64/float32/float64)
-- 
2.43.0


From 956cf47b683a3282df7a71588e28e4e95c47a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:38 +0000
Subject: [PATCH 115/142] fix: Multiset.flatten() of Datasets without label
 columns raised

---
 riptable/rt_multiset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_multiset.py b/riptable/rt_multiset.py
index 388ad98..3cd6266 100644
--- a/riptable/rt_multiset.py
+++ b/riptable/rt_multiset.py
@@ -672,8 +672,11 @@ class Multiset(Struct):
             val_col_names = [n for n in elem.keys() if n not in label_col_names]
             if horizontal:
                 if initial:
-                    dsr = elem[label_col_names] if label_col_names else TypeRegister.Dataset()
-                dsr = TypeRegister.Dataset.concat_columns([dsr, elem[val_col_names]], do_copy=False)
+                    # without label columns there is nothing to join the values to
+                    dsr = [elem[label_col_names]] if label_col_names else []
+                else:
+                    dsr = [dsr]
+                dsr = TypeRegister.Dataset.concat_columns(dsr + [elem[val_col_names]], do_copy=False)
                 for col_name in val_col_names:
                     dsr.col_rename(col_name, delimiter.join([name, col_name]))
             else:
-- 
2.43.0


From 310f2fac1af932867f28baf12b1096c63a21787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:38 +0000
Subject: [PATCH 116/142] fix: PDataset.pcat kept the old partition names after
 set_pnames

---
 riptable/rt_pdataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_pdataset.py b/riptable/rt_pdataset.py
index 66fbb25..f19977e 100644
--- a/riptable/rt_pdataset.py
+++ b/riptable/rt_pdataset.py
@@ -437,6 +437,8 @@ class PDataset(Dataset):
 
                 if len(newpnames) == len(self._pnames):
                     self._pnames = newpnames
+                    # the partition categorical holds the names
+                    self._pcat = None
                 else:
                     raise ValueError(f"The new pnames must be unique names: {pnames}")
 
-- 
2.43.0


From 10345b2e0e6d80beff329a6717f4b205853ac34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:23 +0000
Subject: [PATCH 117/142] fix: vertical Multiset.flatten() of nested Multisets
 without label columns raised

---
 riptable/rt_multiset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_multiset.py b/riptable/rt_multiset.py
index 3cd6266..3877392 100644
--- a/riptable/rt_multiset.py
+++ b/riptable/rt_multiset.py
@@ -691,7 +691,9 @@ class Multiset(Struct):
                 else:
                     # Append multiset name to dataset name column
                     elem[dset_col_name] = [delimiter.join([name, cn.decode()]) for cn in elem[dset_col_name]]
-                inds = TypeRegister.Dataset.concat_columns([inds, elem[val_col_names]], do_copy=False)
+                # a nested Multiset without label columns has nothing to put in front of the values
+                inds = [inds, elem[val_col_names]] if inds.get_ncols() else [elem[val_col_names]]
+                inds = TypeRegister.Dataset.concat_columns(inds, do_copy=False)
                 dsr = inds if initial else TypeRegister.Dataset.concat_rows([dsr, inds])
                 # Move the label column(s) to front, so they are there even with label removed
                 dsr.col_move_to_front(label_col_names)
-- 
2.43.0


From 3c07556ba4b2171e09b2323156eda2ab9b0f37a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:30 +0000
Subject: [PATCH 118/142] fix: Dataset.equals(exact=True) broadcast Datasets of
 different shapes and called them equal

---
 riptable/rt_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index e99da63..9985348 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8237,6 +8237,8 @@ class Dataset(Struct):
             try:
                 # create a nan mask -- where both are nans
                 # this does an inplace and
+                if self.shape != other.shape:
+                    raise ValueError("Datasets of different shapes are not equal")
                 result = ds_isnan(self)
                 result *= ds_isnan(other)
 
-- 
2.43.0


From 7245ee34973a899ba4163f68f5b3ef0661b18091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:10 +0000
Subject: [PATCH 119/142] fix: Dataset.drop_duplicates(inplace=True) returned
 another Dataset when nothing was dropped

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 9985348..378159b 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3775,7 +3775,7 @@ class Dataset(Struct):
                 self._col_sortlist = None
                 self._sort_ascending = True
                 self.col_replace_all(deduplicated, check_exists=False)
-                return self
+            return self
 
         return deduplicated
 
-- 
2.43.0


From 2c3830e3bf74941310ad8842269eade7e2b76a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:28 +0000
Subject: [PATCH 120/142] fix: assigning a Categorical with other categories
 into a Categorical wrote the target's own labels as codes

---
 riptable/rt_categorical.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 948ee00..8ef2f0c 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4316,6 +4316,26 @@ class Categorical(GroupByOps, FastArray):
         self._fa[key] = value
         self.grouping.set_dirty()
 
+    # -------------------------------------------------------
+    def _align_codes(self, value):
+        """The codes in this Categorical for the labels of a Categorical with other categories."""
+        codes, inverse = np.unique(value._np, return_inverse=True)
+        aligned = []
+        for code in codes:
+            if value.base_index == 1 and code == 0:
+                # filtered stays filtered
+                if self.base_index != 1:
+                    raise ValueError("Cannot assign filtered values to a Categorical without a filtered bin.")
+                aligned.append(0)
+            else:
+                label = value.from_bin(code)
+                if self.isenum and isinstance(label, bytes):
+                    label = label.decode()
+                aligned.append(self.from_category(label))
+                if self.ismultikey and aligned[-1] < self.base_index:
+                    raise ValueError(f"{label} not found in uniques.")
+        return np.asarray(aligned, dtype=self._np.dtype)[inverse]
+
     # -------------------------------------------------------
     def __setitem__(self, index, value):
         """
@@ -4333,12 +4353,13 @@ class Categorical(GroupByOps, FastArray):
         if isinstance(value, Categorical):
             # have to align the categoricals
             # check if already aligned, if so can use same integers
-            is_same, catlist = Categorical.categories_equal([self, value])
-            value = catlist[1]
-            if not is_same:
-                # convert back to strings (slow)
-                # TODO: multikey will fail here
-                value = self.expand_array
+            if self.isenum and value.isenum:
+                is_same = self.category_mapping == value.category_mapping
+            elif self.isenum or value.isenum or self.base_index != value.base_index:
+                is_same = False
+            else:
+                is_same, _ = Categorical.categories_equal([self, value])
+            value = value._fa if is_same else self._align_codes(value)
 
         # first check if the value is string like
         # if it is, we have to convert it to an index first
-- 
2.43.0


From 9cd656d76b0bf8c81b19ed22e335f095b2d12b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:28 +0000
Subject: [PATCH 121/142] fix: Grouping.isin matched filtered rows with the
 last group's values

---
 riptable/rt_grouping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 2dad49b..a95ec14 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1365,14 +1365,15 @@ class Grouping:
         if self.isenum:
             found, _ = self.ismember(values)
             # expand boolean found
-            return found[self.ikey - 1]
+            return found[self.ikey - 1] & (self.ikey != 0)
         else:
             found, _ = self.ismember(values)
             # expand with a zero-base index
             if self.base_index == 0:
                 return found[self.catinstance]
             else:
-                return found[self.catinstance - 1]
+                # filtered rows match nothing
+                return found[self.catinstance - 1] & (self.catinstance != 0)
 
         # mask = None
         # result_len = len(self.catinstance)
-- 
2.43.0


From 9d8740dad66dde50ab1e5a35554af23206d57788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:50 +0000
Subject: [PATCH 122/142] fix: a Categorical column with '!' in its name could
 be saved to SDS but not loaded

---
 riptable/rt_sds.py    | 14 ++++++++++++--
 riptable/rt_struct.py |  6 +++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 14ccf13..63c590f 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -1378,6 +1378,16 @@ def _multistack_onefile(arrays, nameflag_tup, cutoffs, meta, sep="/"):
     return s, data_cutoffs
 
 
+# -----------------------------------------------------------------------------------------
+def _owner_name(itemname: str, owners) -> str:
+    """
+    The name of the item which an auxiliary array (saved as <item name>!<key name>) belongs to.
+    Item names may hold a '!' themselves.
+    """
+    found = [name for name in owners if itemname.startswith(name + "!")]
+    return max(found, key=len) if found else itemname[: itemname.find("!")]
+
+
 # -----------------------------------------------------------------------------------------
 def _multistack_items(arrays, meta_tups, cutoffs, meta):
     """
@@ -1430,7 +1440,7 @@ def _multistack_items(arrays, meta_tups, cutoffs, meta):
         # auxilery item (categorical uniques, etc.)
         # python only
         else:
-            spec_name = itemname[: itemname.find("!")]
+            spec_name = _owner_name(itemname, spec_meta)
 
             # each dictionary key in spec_arrays corresponds to an item in the original container
             # spec_items = {itemname: [arr1, arr2, arr3...]}
@@ -2057,7 +2067,7 @@ def _make_zero_length(sdsresult):
             newarr = []
             for a, t in zip(arr, tups):
                 # names with a bang are for categoricals (we dont touch them)
-                if t[0].find(b"!") == -1:
+                if t[1] & SDSFlag.OriginalContainer or t[0].find(b"!") == -1:
                     # make zero length array for first dim
                     l = [*a.shape]
                     l[0] = 0
diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 9083b72..22e43d7 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -52,7 +52,7 @@ from .rt_itemcontainer import (
 )
 from .rt_misc import build_header_tuples
 from .rt_numpy import arange, hstack, mask_andi, mask_ori
-from .rt_sds import _load_sds, _multistack_categoricals, _rebuild_rootfile, save_sds
+from .rt_sds import _load_sds, _multistack_categoricals, _owner_name, _rebuild_rootfile, save_sds
 from .rt_timers import GetTSC
 from .rt_utils import bytes_to_str, h5io_to_struct, is_list_like
 from .Utils.rt_display_nested import DisplayNested
@@ -1645,6 +1645,7 @@ class Struct:
                 from_matlab = False
             spec_items = {}
             spec_items2 = {}
+            owners = [MetaData(i_meta)["name"] for i_meta in meta.get("item_meta", [])]
 
             for item_idx, tup in enumerate(meta_tups):
                 itemname = tup[0].decode()
@@ -1684,8 +1685,7 @@ class Struct:
                 # auxilery item (categorical uniques, etc.)
                 # python only
                 else:
-                    sep_idx = itemname.find("!")
-                    spec_name = itemname[:sep_idx]
+                    spec_name = _owner_name(itemname, owners)
 
                     # each dictionary key in spec_arrays corresponds to an item in the original container
                     # spec_items = {itemname: [arr1, arr2, arr3...]}
-- 
2.43.0


From e349639ce6a538edafd5e5cff1c00e14ab6a98a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:02 +0000
Subject: [PATCH 123/142] fix: transform=True gave the next group's values with
 a base-0 or mapped Categorical

---
 riptable/rt_groupbyops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 9dec598..285a7da 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -339,7 +339,8 @@ class GroupByOps(ABC):
         if getattr(self, "_transform", False) or transform:
             ikey = self.grouping.ikey
             showfilter = kwargs.get("showfilter", False)
-            if not showfilter and self.grouping.base_index == 1:
+            if not showfilter:
+                # whatever the base index, ikey is 1 for the first group
                 ikey = ikey - 1
             # use fancy indexing to pull the values from the cells, back to original array
             newds = {}
-- 
2.43.0


From 89aebd21bc51abb2b2db08362536afb646bb4c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:02 +0000
Subject: [PATCH 124/142] fix: count(transform=True) gave the next group's
 count with a base-0 or mapped Categorical

---
 riptable/rt_grouping.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index a95ec14..505c9a7 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3534,7 +3534,8 @@ class Grouping:
             ikey = where(filter, self.ikey, 0)
             ncountkey = rc.BinCount(ikey, self.unique_count + 1)
         elif self._packedwithfilter:
-            ncountkey = rc.BinCount(self.ikey, self.unique_count + 1)
+            ikey = self.ikey
+            ncountkey = rc.BinCount(ikey, self.unique_count + 1)
         else:
             # ncountgroup will call BinCount if it needs to
             ncountkey = self.ncountgroup
@@ -3543,10 +3544,10 @@ class Grouping:
         # skip if base 1
         countcol = ncountkey[base:]
         if transform:
-            if not showfilter and self.base_index == 1:
-                countcol = countcol[self.ikey - 1]
-            else:
-                countcol = countcol[ikey]
+            if not showfilter:
+                # whatever the base index, ikey is 1 for the first group
+                ikey = self.ikey - 1
+            countcol = countcol[ikey]
 
         accumdict = {"Count": countcol}
         # return self._make_accum_dataset(origdict, accumdict, accumdict['Count'], GB_FUNC_COUNT)
-- 
2.43.0


From 78b90ffa8e186c0df480f1062daf7d9415baa7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:03 +0000
Subject: [PATCH 125/142] fix: apply_reduce of several columns forced the first
 column's result dtype on all (truncating), and refused dtype=np.float32

---
 riptable/rt_grouping.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 505c9a7..7f1fdcc 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2745,10 +2745,12 @@ class Grouping:
                         return_ds[colname] = arr[base_bin:]
 
                 else:
+                    # every column has its own result, whose dtype may differ from the other columns'
+                    return_arr = None
                     if dtype is not None:
                         # if they specified a single dtype, allocate the array
                         return_arr = empty((return_rows,), dtype=dtype)
-                        invalid = INVALID_DICT[dtype.num]
+                        invalid = INVALID_DICT[return_arr.dtype.num]
 
                     # loop over all groups
                     # TODO: consider c++ loop? (i.e. vectorize this)
@@ -2775,11 +2777,11 @@ class Grouping:
                                 else:
                                     # first time we got back data -- we can determine the dtype now
                                     if hasattr(result, "dtype"):
-                                        dtype = result.dtype
+                                        result_dtype = result.dtype
                                     else:
-                                        dtype = np.dtype(type(result))
-                                    return_arr = empty((return_rows,), dtype=dtype)
-                                    invalid = INVALID_DICT[dtype.num]
+                                        result_dtype = np.dtype(type(result))
+                                    return_arr = empty((return_rows,), dtype=result_dtype)
+                                    invalid = INVALID_DICT[result_dtype.num]
 
                             return_arr[i] = result
                         else:
-- 
2.43.0


From 81e14e91d9123fa3bd218391b43666126e037145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:59 +0000
Subject: [PATCH 126/142] fix: apply_reduce(transform=True) mixed up the groups
 of a sorted (sort_gb) Categorical or groupby

---
 riptable/rt_groupbyops.py | 1 +
 riptable/rt_grouping.py   | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 285a7da..e525895 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -451,6 +451,7 @@ class GroupByOps(ABC):
             label_keys=label_keys,
             func_param=func_param,
             dtype=dtype,
+            transform=transform,
             **kwargs,
         )
         if transform:
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 7f1fdcc..9f74d56 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2533,6 +2533,7 @@ class Grouping:
         badrows=None,
         badcols=None,
         computable=True,
+        transform=False,
         **kwargs,
     ):
         """
@@ -2938,7 +2939,13 @@ class Grouping:
         # reattach keys
         if label_keys is not None and isreduce:
             return_ds = self._finalize_dataset(
-                return_ds, label_keys, label_keys.gbkeys, showfilter=showfilter, addkeys=True, **kwargs
+                return_ds,
+                label_keys,
+                label_keys.gbkeys,
+                transform=transform,
+                showfilter=showfilter,
+                addkeys=True,
+                **kwargs,
             )
 
         return return_ds
-- 
2.43.0


From 59c4a9887298a549182ef0a1c36fd085cb1871ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:30 +0000
Subject: [PATCH 127/142] fix: nunique did not count False, and counted the
 missing Date or DateTimeNano

---
 riptable/rt_fastarray.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index a856bc7..0f14315 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -3995,24 +3995,9 @@ class FastArray(np.ndarray):
         >>> a3.nunique()  # The sentinel value is not included.
         2
         """
+        # isnan knows what is missing: no boolean is, and dates have a sentinel of their own
         un = unique(self)
-        count = len(un)
-        if count > 0:
-            # unique is sorted, so check for sentinel based on dtype
-            inv = INVALID_DICT[self.dtype.num]
-            if self.dtype.char in NumpyCharTypes.AllFloat:
-                # check if last item is nan
-                if un[count - 1] != un[count - 1]:
-                    count -= 1
-            # unsigned int uses high number as sentinel
-            elif self.dtype.char in NumpyCharTypes.UnsignedInteger:
-                if un[count - 1] == inv:
-                    count -= 1
-            # all other sentinels are lowest number
-            else:
-                if un[0] == inv:
-                    count -= 1
-        return count
+        return len(un) - int(un.isnan().sum())
 
     # -------------------------------------------------------
     def searchsorted(self, v, side="left", sorter=None) -> np.number:
-- 
2.43.0


From 6eb4fd3164343a5e2444ae48b895e4131c990f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:38 +0000
Subject: [PATCH 128/142] fix: count_uniques gave the next group's counts with
 a base-0 Categorical and failed with a mapped one

---
 riptable/rt_groupbyops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index e525895..08d9869 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -1087,7 +1087,7 @@ class GroupByOps(ABC):
             newdict = {}
             for colname, arr in origdict.items():
                 if colname not in gbk:
-                    mcat = TypeRegister.Categorical([g.catinstance, arr], filter=filter)
+                    mcat = TypeRegister.Categorical([g.ikey, arr], filter=filter)
                     if transform:
                         result = self.nansum(mcat.first_bool, transform=transform)[-1]
                     else:
-- 
2.43.0


From 81d5ee6a1e179a5937adf9a5106aa195a82231d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:38 +0000
Subject: [PATCH 129/142] fix: rolling_quantile and rolling_median failed with
 a base-0 or mapped Categorical

---
 riptable/rt_groupbyops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 08d9869..8db179b 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -3030,7 +3030,7 @@ class GroupByOps(ABC):
 
         answers = []
 
-        window = min(window, len(self.grouping._iKey))
+        window = min(window, len(self.grouping.ikey))
 
         for quantile in q:
             funcParam = rolling_quantile_funcParam(quantile, window)
-- 
2.43.0


From a002de48e80b22937f014d85f21c9649b9f07e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:38 +0000
Subject: [PATCH 130/142] fix: numba_apply of a sorted (sort_gb) Categorical
 put the results under the wrong labels

---
 riptable/rt_categorical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 8ef2f0c..2a8c08b 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6582,6 +6582,10 @@ class Categorical(GroupByOps, FastArray):
         if np.isscalar(example_res) and not transform:  # userfunc is a scalar function
             res = self._scalar_compiled_numba_apply(iGroup, iFirstGroup, nCountGroup, userfunc, args)
 
+            # the keys are sorted for display, so sort the results with them
+            if self.gb_keychain.sort_gb_data:
+                res = res[self.gb_keychain.isortrows]
+
             res_ds = TypeRegister.Dataset(self.gb_keychain.gbkeys)
             res_ds.label_set_names(res_ds.keys())
             value = column_name(args[0])
-- 
2.43.0


From dd4d7f3fc4f5231ef350ef05ab314d6e290e92fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:16 +0000
Subject: [PATCH 131/142] fix: first_fancy and last_fancy (and first_bool,
 last_bool) named another group's row for an empty group, or failed

---
 riptable/rt_groupbyops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 8db179b..80078da 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -258,7 +258,9 @@ class GroupByOps(ABC):
         # note, cache this value?
         # fancy index
         self.grouping.pack_by_group()
-        return self.grouping.iGroup[self.grouping.iFirstGroup[1:]]
+        # an empty group has no first row
+        notempty = self.grouping.nCountGroup[1:] > 0
+        return self.grouping.iGroup[self.grouping.iFirstGroup[1:][notempty]]
 
     # ---------------------------------------------------------------
     @property
@@ -285,7 +287,9 @@ class GroupByOps(ABC):
         # note, cache this value?
         # fancy index
         self.grouping.pack_by_group()
-        return self.grouping.iGroup[self.grouping.iFirstGroup[1:] + self.grouping.nCountGroup[1:] - 1]
+        # an empty group has no last row
+        notempty = self.grouping.nCountGroup[1:] > 0
+        return self.grouping.iGroup[(self.grouping.iFirstGroup[1:] + self.grouping.nCountGroup[1:] - 1)[notempty]]
 
     # ---------------------------------------------------------------
     @property
-- 
2.43.0


From 4538244f122834a04d43247518508d8d6011b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:53 +0000
Subject: [PATCH 132/142] fix: accum_ratio renamed categories of the caller's
 Categorical

---
 riptable/rt_accumtable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_accumtable.py b/riptable/rt_accumtable.py
index 8dedb1f..af53581 100644
--- a/riptable/rt_accumtable.py
+++ b/riptable/rt_accumtable.py
@@ -999,6 +999,8 @@ def accum_ratio(
     # Handle name collisions
     for key in ["Numer", "Denom", "Ratio"]:
         if key in cat2.categories():
+            # the caller's Categorical keeps its categories
+            cat2 = cat2.copy()
             cat2.category_replace(key, key + "_")
 
     # Compute accum
-- 
2.43.0


From b720fb6639481dc32b6c72966907f8fcd28b8549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:53 +0000
Subject: [PATCH 133/142] fix: unique of a multikey Categorical failed

---
 riptable/rt_numpy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index baca3a8..69560e3 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -956,8 +956,12 @@ def unique(
 
     if mark_readonly:
         # make an object copy to mark it readonly
-        un = un.view(TypeRegister.FastArray)
-        un.flags.writeable = False
+        if isinstance(un, list):
+            un = [u.view(TypeRegister.FastArray) for u in un]
+        else:
+            un = un.view(TypeRegister.FastArray)
+        for u in un if isinstance(un, list) else [un]:
+            u.flags.writeable = False
 
     if return_counts:
         # handles both base0 and base1
-- 
2.43.0


From 1b96ec74ebbf2d9979fa6a6ed9b4f97682a7cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:53 +0000
Subject: [PATCH 134/142] fix: from_jagged_rows replaced the rows in the
 caller's list

---
 riptable/rt_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 378159b..2d67363 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -7591,6 +7591,7 @@ class Dataset(Struct):
         """
 
         # get final dataset dims, flip all input to array
+        rows = list(rows)
         nrows = len(rows)
 
         # always favor bytestrings
-- 
2.43.0


From 32c79ccaa8a08b95c802516ef27c249d43bcfa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:54 +0000
Subject: [PATCH 135/142] fix: a stacked load gave the label of code 0 to the
 rows of files without the mapped Categorical

---
 riptable/rt_sds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 63c590f..d506c93 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -1269,7 +1269,9 @@ def _multistack_categoricals(spec_name, meta_list, indices, listcats, idx_cutoff
         firstindex = indices[idx_cutoffs[1:] - 1]
         invalid = INVALID_DICT[firstindex.dtype.num]
         invalidsum = np.sum(firstindex == invalid)
-        if invalidsum > 0 or indices[0] == invalid:
+        mapped = CategoryMode(meta_list[0]["instance_vars"]["mode"]) in (CategoryMode.Dictionary, CategoryMode.IntEnum)
+        # a mapped categorical has no bin 0: 0 may be the code of a label
+        if not mapped and (invalidsum > 0 or indices[0] == invalid):
             warnings.warn(
                 f"!! {invalidsum} Bad indices in categorical {spec_name}.  May have been gap filled.  Setting invalids to bin 0.",
                 stacklevel=2,
-- 
2.43.0


From 670d5fd5f099aaea0f042f246a2152277a7dfdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:55 +0000
Subject: [PATCH 136/142] fix: reductions given axis or ddof, and those of 2-D
 arrays, counted missing integers as values

---
 riptable/rt_fastarray.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 0f14315..75d68c9 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2157,7 +2157,29 @@ class FastArray(np.ndarray):
             ]:
                 kwargs["ddof"] = 1
 
-            result = npFunc(self._np, *args, **kwargs)
+            arr = self._np
+            # numpy does not know the integer sentinels
+            if arr.dtype.kind in "iu" and reduceFunc in [
+                REDUCE_FUNCTIONS.REDUCE_MEAN,
+                REDUCE_FUNCTIONS.REDUCE_VAR,
+                REDUCE_FUNCTIONS.REDUCE_STD,
+                REDUCE_FUNCTIONS.REDUCE_NANSUM,
+                REDUCE_FUNCTIONS.REDUCE_NANMEAN,
+                REDUCE_FUNCTIONS.REDUCE_NANVAR,
+                REDUCE_FUNCTIONS.REDUCE_NANSTD,
+                REDUCE_FUNCTIONS.REDUCE_NANMIN,
+                REDUCE_FUNCTIONS.REDUCE_NANMAX,
+                REDUCE_FUNCTIONS.REDUCE_NANARGMIN,
+                REDUCE_FUNCTIONS.REDUCE_NANARGMAX,
+            ]:
+                isna = arr == INVALID_DICT[arr.dtype.num]
+                if isna.any():
+                    if reduceFunc == REDUCE_FUNCTIONS.REDUCE_NANSUM:
+                        arr = np.where(isna, arr.dtype.type(0), arr)
+                    else:
+                        arr = np.where(isna, np.nan, arr)
+
+            result = npFunc(arr, *args, **kwargs)
             return result
 
         result = TypeRegister.MathLedger._REDUCE(self, reduceFunc)
-- 
2.43.0


From f6e394f10b708468918132cf536b998626348855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:55 +0000
Subject: [PATCH 137/142] fix: nanmin and nanmax ignored axis

---
 riptable/rt_numpy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 69560e3..004cfb6 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3614,7 +3614,9 @@ def nanmin(*args, **kwargs):
 
     else:
         # Call the implementation of this function in riptable_cpp via the Ledger class/dispatcher.
-        if isinstance(firstarg, TypeRegister.FastArray):
+        if isinstance(firstarg, TypeRegister.FastArray) and (kwargs or firstarg.ndim != 1):
+            result = firstarg.nanmin(**kwargs)
+        elif isinstance(firstarg, TypeRegister.FastArray):
             result = TypeRegister.MathLedger._REDUCE(firstarg, REDUCE_FUNCTIONS.REDUCE_NANMIN)
         else:
             result = LedgerFunction(np.nanmin, *args, **kwargs)
@@ -3656,7 +3658,9 @@ def nanmax(*args, **kwargs):
 
     else:
         # Call the implementation of this function in riptable_cpp via the Ledger class/dispatcher.
-        if isinstance(firstarg, TypeRegister.FastArray):
+        if isinstance(firstarg, TypeRegister.FastArray) and (kwargs or firstarg.ndim != 1):
+            result = firstarg.nanmax(**kwargs)
+        elif isinstance(firstarg, TypeRegister.FastArray):
             result = TypeRegister.MathLedger._REDUCE(firstarg, REDUCE_FUNCTIONS.REDUCE_NANMAX)
         else:
             result = LedgerFunction(np.nanmax, *args, **kwargs)
-- 
2.43.0


From 6f850eb4932ad0edb28536ed2a02ab994ac14ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:09 +0000
Subject: [PATCH 138/142] fix: Dataset reductions over all columns or by row
 miscounted missing integers, and combined per-column means and variances

---
 riptable/rt_dataset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 2d67363..21dccf7 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6560,7 +6560,9 @@ class Dataset(Struct):
                 # 2.74 ms ± 6.18 µs per loop (mean ± std. dev. of 7 runs, 100 loops each)
                 # return np.array([func(np.array(self[_r, :].tolist()), **kwargs) for _r in range(self.get_nrows())])
                 # 267 µs ± 2 µs per loop (mean ± std. dev. of 7 runs, 1000 loops each)
-                return FastArray([func(_r, **kwargs) for _r in self.asrows(as_type="array")])
+                # the matrix keeps missing values missing when the dtypes differ
+                rows = self.imatrix_make(colnames=list(self.keys()), inplace=False)
+                return FastArray([func(_r, **kwargs) for _r in rows])
 
             # respects noncomputable cols.
             # 448 µs ± 1.7 µs per loop (mean ± std. dev. of 7 runs, 1000 loops each)
@@ -6584,11 +6586,9 @@ class Dataset(Struct):
             return np.array([func(_row(_i), **kwargs) for _i in range(self.get_nrows())])
 
         if axis is None:
-            if not any(noncomp):
-                # does not respect noncomputable cols.
-                # np.ravel doc suggests this to be the most likely to be efficient
-                # 34.9 µs ± 57.9 ns per loop (mean ± std. dev. of 7 runs, 10000 loops each)
-                return func(np.reshape([self.col_get_value(_k) for _k in self.keys()], -1), **kwargs)
+            if fill_value is None or not any(noncomp):
+                # hstack keeps missing values missing when the dtypes differ
+                return func(hstack([_v for _v, _nc in zip(self.values(), noncomp) if not _nc]), **kwargs)
             # respects noncomputable cols.
             # 290 µs ± 1.86 µs per loop (mean ± std. dev. of 7 runs, 1000 loops each)
             bycols = self.reduce(func, axis=0, as_dataset=True, fill_value=fill_value, **kwargs)
-- 
2.43.0


From 93dc201551b2484780566fe661f23c8edc3b3ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:27 +0000
Subject: [PATCH 139/142] fix: reductions of a 2-D FastArray ignored axis=0 and
 reduced the whole array

---
 riptable/rt_fastarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 75d68c9..c5dbe9c 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -3214,7 +3214,8 @@ class FastArray(np.ndarray):
 
         if dtype is not None:
             kwargs["dtype"] = dtype
-        if axis:
+        # axis 0 is all of a 1-D array
+        if axis is not None and (axis != 0 or self.ndim > 1):
             kwargs["axis"] = axis
         if keepdims:
             kwargs["keepdims"] = keepdims
-- 
2.43.0


From 27160bea54e8bd3229c6b63067f37f3f989e28d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:17 +0000
Subject: [PATCH 140/142] fix: a Date, DateSpan or TimeSpan scalar on the left
 of + or - mixed up days and nanoseconds and lost the type

---
 riptable/rt_datetime.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 3abc017..5554dd5 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -591,6 +591,20 @@ def _scalar_to_array(value):
     return value
 
 
+def _is_date_or_time(value):
+    return isinstance(
+        value,
+        (Date, DateSpan, DateTimeNano, TimeSpan, DateScalar, DateSpanScalar, DateTimeNanoScalar, TimeSpanScalar),
+    )
+
+
+def _scalar_mathop(scalar, funcname, value):
+    """Date and time scalars add and subtract like arrays of their type; two scalars give a scalar."""
+    if isinstance(value, np.ndarray):
+        return getattr(scalar.repeat(len(value)), funcname)(value)
+    return getattr(scalar.repeat(1), funcname)(value)[0]
+
+
 class DateTimeBase(FastArray):
     """Base class for DateTimeNano and TimeSpan.
     Both of these subclasses have times with nanosecond precision.
@@ -7578,6 +7592,13 @@ class DateScalar(np.int32):
     def _np(self):
         return self.view(np.int32)
 
+    # np.int32 is the base, so it would add and subtract the number of days to any other unit
+    def __add__(self, value):
+        return _scalar_mathop(self, "__add__", value) if _is_date_or_time(value) else super().__add__(value)
+
+    def __sub__(self, value):
+        return _scalar_mathop(self, "__sub__", value) if _is_date_or_time(value) else super().__sub__(value)
+
     # used in adding a scalar to a Dataset
     def repeat(self, repeats, axis=None):
         return Date(self._np.repeat(repeats, axis=axis))
@@ -7655,6 +7676,13 @@ class DateSpanScalar(np.int32):
     def _fa(self):
         return self.view(np.int32)
 
+    # np.int32 is the base, so it would add and subtract the number of days to any other unit
+    def __add__(self, value):
+        return _scalar_mathop(self, "__add__", value) if _is_date_or_time(value) else super().__add__(value)
+
+    def __sub__(self, value):
+        return _scalar_mathop(self, "__sub__", value) if _is_date_or_time(value) else super().__sub__(value)
+
     # used in adding a scalar to a Dataset
     def repeat(self, repeats, axis=None):
         return DateSpan(self._np.repeat(repeats, axis=axis))
@@ -7960,12 +7988,16 @@ class TimeSpanScalar(np.float64, TimeSpanBase):
     # --BINARY OPERATIONS------------------------------------------
     # -------------------------------------------------------------
     def __add__(self, value):
+        if np.isscalar(value) and _is_date_or_time(value):
+            return _scalar_mathop(self, "__add__", value)
         return TimeSpanBase.__add__(self, value)
 
     def __radd__(self, value):
         return TimeSpanBase.__radd__(self, value)
 
     def __sub__(self, value):
+        if np.isscalar(value) and _is_date_or_time(value):
+            return _scalar_mathop(self, "__sub__", value)
         return TimeSpanBase.__sub__(self, value)
 
     def __rsub__(self, value):
-- 
2.43.0


From 669d78721d0bf61854c5a08ea839c39827bfcb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:01 +0000
Subject: [PATCH 141/142] fix: a date or time scalar on the left of a
 comparison compared days with nanoseconds

---
 riptable/rt_datetime.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 5554dd5..a421b03 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -605,6 +605,22 @@ def _scalar_mathop(scalar, funcname, value):
     return getattr(scalar.repeat(1), funcname)(value)[0]
 
 
+def _scalar_comparisons(cls):
+    """Date and time scalars compare to dates and times like arrays of their type, not by their bare numbers."""
+
+    def make(funcname, plain):
+        def compare(self, other):
+            return _scalar_mathop(self, funcname, other) if _is_date_or_time(other) else plain(self, other)
+
+        return compare
+
+    hashfunc = cls.__hash__ or cls.__mro__[1].__hash__
+    for funcname in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
+        setattr(cls, funcname, make(funcname, getattr(cls, funcname)))
+    cls.__hash__ = hashfunc
+    return cls
+
+
 class DateTimeBase(FastArray):
     """Base class for DateTimeNano and TimeSpan.
     Both of these subclasses have times with nanosecond precision.
@@ -7503,6 +7519,7 @@ class TimeSpan(TimeSpanBase, DateTimeBase):
 # ==========================================================
 # Scalars
 # ==========================================================
+@_scalar_comparisons
 class DateScalar(np.int32):
     """
     Derived from np.int32
@@ -7608,6 +7625,7 @@ class DateScalar(np.int32):
 
 
 # ==========================================================
+@_scalar_comparisons
 class DateSpanScalar(np.int32):
     """
     Derived from np.int32
@@ -7692,6 +7710,7 @@ class DateSpanScalar(np.int32):
 
 
 # ==========================================================
+@_scalar_comparisons
 class DateTimeNanoScalar(np.int64, DateTimeCommon, TimeStampBase):
     """
     Derived from np.int64
@@ -7858,6 +7877,7 @@ class DateTimeNanoScalar(np.int64, DateTimeCommon, TimeStampBase):
 
 
 # ==========================================================
+@_scalar_comparisons
 class TimeSpanScalar(np.float64, TimeSpanBase):
     """
     Derived from np.float64
-- 
2.43.0


From 5cb389e87177558a39d1338b4c6d5272a19e5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:12 +0000
Subject: [PATCH 142/142] fix: ismember of mapped Categoricals missed labels
 that have another code in the other mapping

---
 riptable/rt_numpy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 004cfb6..1fd663d 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1044,8 +1044,14 @@ def _possibly_match_categoricals(a: "Categorical", b):
                             break
                 # use arrays of integer codes
                 if match:
-                    a = a._fa
-                    b = b._fa
+                    bcodes = {bval: code for code, bval in bdict.items()}
+                    if all(bcodes.get(aval, code) == code for code, aval in adict.items()):
+                        a = a._fa
+                        b = b._fa
+                    else:
+                        # a label has a different code in each
+                        a = a.as_string_array
+                        b = b.as_string_array
 
                 else:
                     raise ValueError(f"Mapped categoricals had non-matching mappings. Could not perform ismember.")
-- 
2.43.0

