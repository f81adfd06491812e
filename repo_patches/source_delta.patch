From 14c6e84781fb96ac25226d8ce437d5c47277b2e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:05:08 +0000
Subject: [PATCH 01/78] fix: integer cummin/cummax(skipna=False) keep an
 invalid sticky, as the float versions do

---
 riptable/rt_fastarraynumba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarraynumba.py b/riptable/rt_fastarraynumba.py
index 7a1b9be..69e4930 100644
--- a/riptable/rt_fastarraynumba.py
+++ b/riptable/rt_fastarraynumba.py
@@ -346,7 +346,7 @@ def nb_cummin_int(arr: np.ndarray, ret: np.ndarray, inv, skipna):
         running_min = arr[0]
         for i in range(len(arr)):
             val = arr[i]
-            if val == inv or val < running_min:
+            if running_min != inv and (val == inv or val < running_min):
                 running_min = val
             ret[i] = running_min
 
@@ -394,7 +394,7 @@ def nb_cummax_int(arr: np.ndarray, ret: np.ndarray, inv, skipna):
         running_max = arr[0]
         for i in range(len(arr)):
             val = arr[i]
-            if val == inv or val > running_max:
+            if running_max != inv and (val == inv or val > running_max):
                 running_max = val
             ret[i] = running_max
 
-- 
2.43.0


From bd6e922186c4c6528d15e4a85b9a2b547167be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:22 +0000
Subject: [PATCH 02/78] fix: open-ended substr slice on a Categorical uses the
 category lengths, not the row lengths

---
 riptable/rt_str.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index fa46d3d..366465c 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -1431,7 +1431,8 @@ class _SubStrAccessor:
             if y.step is not None:
                 raise NotImplementedError("slicing with step in substr is not supported")
             if y.stop is None:
-                stop = self.fastring.strlen
+                # open-ended: _substr clips the stop position to each string's length
+                stop = np.iinfo(np.int64).max
             else:
                 stop = y.stop
             return self.fastring._substr(y.start, stop)
-- 
2.43.0


From 19500d1cfd9ceba1c8a68b57b761f04e6071dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:07 +0000
Subject: [PATCH 03/78] fix: groupbylex with a filter lists the filtered-out
 rows in iGroup and handles an all-False filter

---
 riptable/rt_numpy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 85406da..296ccbe 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2195,6 +2195,17 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
             filtertrue = filtertrue[0:truecount]
             index = filtertrue
 
+            if truecount == 0:
+                # nothing to sort: every row falls in the invalid bin
+                return {
+                    "iKey": zeros(totalcount, dtype=np.int32),
+                    "iFirstKey": empty(0, dtype=np.int32),
+                    "unique_count": 0,
+                    "iGroup": filterfalse,
+                    "iFirstGroup": zeros(1, dtype=np.int32),
+                    "nCountGroup": full(1, totalcount, dtype=np.int32),
+                }
+
         # lexsort
         if len(value_array) > 2e9:
             iGroup = rc.LexSort64(list_arrays, cutoffs=cutoffs, index=index)
@@ -2235,6 +2246,7 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
 
             # the invalids are after all the valids in the iGroup
             iFirstGroup[0] = len(filtertrue)
+            iGroup = hstack((iGroup, filterfalse.astype(iGroup.dtype)))
 
         mkdict = {
             "iKey": iKey,
-- 
2.43.0


From e6ca1022b64b2a9fbe680f902f491ddb2379b177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:07 +0000
Subject: [PATCH 04/78] fix: joins on several keys accept a side whose keys are
 all invalid, and find the null-key rows of a lexically ordered grouping

---
 riptable/rt_merge.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 1dc93c9..38ca75e 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1354,10 +1354,11 @@ def _create_merge_fancy_indices(
         # TODO: Pass 'hint_size' here to speed up the 'ismember' call?
         # WORKAROUND: Through v1.9.0 ismember() incorrectly raises an exception if one or both inputs is a multikey of
         # empty arrays. Until that's fixed, detect that case and handle it here.
-        if len(left_keygroup.ikey) == 0 or len(right_keygroup.ikey) == 0:
-            right_key_exists_in_left = zeros(right_keygroup.ikey.shape, dtype=bool)
+        # This also covers non-empty inputs where every key is invalid, since the gbkeys are empty then.
+        if left_keygroup.unique_count == 0 or right_keygroup.unique_count == 0:
+            right_key_exists_in_left = zeros(right_keygroup.unique_count, dtype=bool)
             right_keyid_to_left_keyid_map = full(
-                right_keygroup.ikey.shape, right_keygroup.ikey.inv, dtype=right_keygroup.ikey.dtype
+                right_keygroup.unique_count, right_keygroup.ikey.inv, dtype=right_keygroup.ikey.dtype
             )
         else:
             right_key_exists_in_left, right_keyid_to_left_keyid_map = ismember(
@@ -1424,7 +1425,16 @@ def _create_merge_fancy_indices(
         # key will be smaller-than-or-equal to the length of the original data column, and in most
         # cases will be significantly smaller (so using ismember on the gbkeys will be significantly faster).
         # TODO: Pass 'hint_size' here to speed up the 'ismember' call?
-        right_key_exists_in_left, right_keyid_to_left_keyid_map = ismember(right_grouping_gbkey, left_grouping_gbkey)
+        # WORKAROUND: ismember() raises if one or both inputs is a multikey of empty arrays (every key is invalid).
+        if left_keygroup.unique_count == 0 or right_keygroup.unique_count == 0:
+            right_key_exists_in_left = zeros(right_keygroup.unique_count, dtype=bool)
+            right_keyid_to_left_keyid_map = full(
+                right_keygroup.unique_count, right_keygroup.ikey.inv, dtype=right_keygroup.ikey.dtype
+            )
+        else:
+            right_key_exists_in_left, right_keyid_to_left_keyid_map = ismember(
+                right_grouping_gbkey, left_grouping_gbkey
+            )
 
         # Determine which keys in 'right' are also in 'left'.
         # We can compute this relatively inexpensively from the boolean mask we created earlier
@@ -1462,7 +1472,10 @@ def _create_merge_fancy_indices(
         else:
             if right_groupby_keygroup is not None and right_keygroup.ncountgroup[0] > 0:
                 # Find the rows in 'right' which have the null JOIN key.
-                join_invalid_rows = right_keygroup.igroup[: right_keygroup.ncountgroup[0]]
+                join_invalid_start = right_keygroup.ifirstgroup[0]
+                join_invalid_rows = right_keygroup.igroup[
+                    join_invalid_start : join_invalid_start + right_keygroup.ncountgroup[0]
+                ]
 
                 # What GROUP BY groups do each of these rows belong to?
                 join_invalid_groupby_groups = right_groupby_keygroup.ikey[join_invalid_rows]
-- 
2.43.0


From bb2e008a13659c1596ac7e99c024f3983dfb2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:07 +0000
Subject: [PATCH 05/78] fix: merge2(copy=False) keeps the categories of
 Categorical columns

---
 riptable/rt_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 38ca75e..65366f3 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -2718,7 +2718,8 @@ def merge2(
 
     def readonly_array_wrapper(arr: FastArray) -> FastArray:
         """Create a read-only view of an array."""
-        new_arr = arr.view()
+        # slice (rather than .view()) so that subclasses such as Categorical keep their metadata
+        new_arr = arr[:]
         new_arr.flags.writeable = False
         return new_arr
 
-- 
2.43.0


From 6c592b2d1f93ba5856df3744ba470022098232a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:07 +0000
Subject: [PATCH 06/78] fix: outer join with keep no longer truncates row
 numbers to the dtype of the result length

---
 riptable/rt_merge.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 65366f3..b0b66d3 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1555,8 +1555,10 @@ def _create_merge_fancy_indices(
 
                 # Create an extended version of the fancy index for 'left'; for the new elements representing
                 # rows with right-only keys, write invalid/NA values into them since they don't match any left rows.
+                # The elements are row numbers of 'left', which can outnumber the result rows when `keep` is used.
                 extended_left_fancy_index = empty(
-                    extended_left_rowcount, dtype=int_dtype_from_len(extended_left_rowcount)
+                    extended_left_rowcount,
+                    dtype=int_dtype_from_len(max(extended_left_rowcount, len(left_keygroup.ikey))),
                 )
                 extended_left_fancy_index[: len(left_fancy_index)] = left_fancy_index
                 extended_left_fancy_index[len(left_fancy_index) :] = extended_left_fancy_index.inv
@@ -1578,8 +1580,10 @@ def _create_merge_fancy_indices(
 
                 # Create an extended version of the fancy index for 'right'; for the new elements representing
                 # rows with right-only keys, we write in the indices of those rows (which we extracted earlier).
+                # The elements are row numbers of 'right', which can outnumber the result rows when `keep` is used.
                 extended_right_fancy_index = empty(
-                    extended_right_rowcount, dtype=int_dtype_from_len(extended_right_rowcount)
+                    extended_right_rowcount,
+                    dtype=int_dtype_from_len(max(extended_right_rowcount, len(right_keygroup.ikey))),
                 )
                 extended_right_fancy_index[: len(right_fancy_index)] = right_fancy_index
                 extended_right_fancy_index[len(right_fancy_index) :] = right_only_group_rows
-- 
2.43.0


From 97f7742b64ac2ef03a449f67e5f580f4f7e4ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:11 +0000
Subject: [PATCH 07/78] fix: merge keep= finds the null-key rows of a lexically
 ordered (high_card) grouping

---
 riptable/rt_merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index b0b66d3..34ede27 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -518,7 +518,7 @@ def _get_keep_ifirstlastkey_with_null(grouping: "Grouping", keep: Optional[str])
             #       index we'd need to use a wider dtype.
             orig_ifirstkey = grouping.ifirstkey
             # This works because the invalid group is always first (i.e. ifirstgroup[0] == 0).
-            invalid_key_first_idx = grouping.igroup[0]
+            invalid_key_first_idx = grouping.igroup[grouping.ifirstgroup[0]]
 
             # Determine the dtype needed to hold the result.
             ifirstkey_dtype = np.promote_types(orig_ifirstkey.dtype, int_dtype_from_len(invalid_key_first_idx))
@@ -541,7 +541,7 @@ def _get_keep_ifirstlastkey_with_null(grouping: "Grouping", keep: Optional[str])
             #       in the last element of the array -- if we want to represent that index we'd need to use a wider dtype.
             orig_ilastkey = grouping.ilastkey
             # This works because the invalid group is group 0 (as long as base_index > 0).
-            invalid_key_last_idx = grouping.igroup[grouping.ncountgroup[0] - 1]
+            invalid_key_last_idx = grouping.igroup[grouping.ifirstgroup[0] + grouping.ncountgroup[0] - 1]
 
             # Determine the dtype needed to hold the result.
             ilastkey_dtype = np.promote_types(orig_ilastkey.dtype, int_dtype_from_len(invalid_key_last_idx))
-- 
2.43.0


From 7de2c06f9133abdc67695399634af81e3e71bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:53 +0000
Subject: [PATCH 08/78] fix: merge_asof2 with 'by' columns accepts a side
 without any valid key

---
 riptable/rt_merge_asof.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index 1b19f6c..beaeff8 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -1001,6 +1001,12 @@ def _create_merge_asof_grouped_fancy_indices(
           as the number of groups (or keys?) in the ``left`` dataset. That allows a per-group tolerance to be specified
           if needed.
     """
+    # If one of the Datasets doesn't have any (valid) 'by' keys, none of the rows can match.
+    if left_by_keygroup.unique_count == 0 or right_by_keygroup.unique_count == 0:
+        right_fancyindex = empty(left_on.shape, dtype=_fancyindex_dtype_from_shape(right_on.shape))
+        right_fancyindex[:] = right_fancyindex.inv
+        return JoinIndices(None, right_fancyindex)
+
     # Get the unique values from the Groupings.
     # TODO: If any of the keys in the tuples below are Categorical, need to expand them back;
     #       current rt.ismember() won't handle it correctly, at least if they are one of
-- 
2.43.0


From 31c6f7b1496a809355ca084ae6b17cd926a8ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:53 +0000
Subject: [PATCH 09/78] fix: merge_asof2 accepts TimeSpanScalar tolerances

---
 riptable/rt_merge_asof.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index beaeff8..cd8ca7a 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -1172,8 +1172,10 @@ def _validate_and_normalize_tolerance(
     # If 'tolerance' is a value of a signed type, don't allow negative values;
     # the 'as-of' logic won't work correctly if given a negative value.
     negative_tol_errmsg = "Negative tolerance values not supported for as-of merges."
-    if isinstance(tolerance, float) or (
-        isinstance(tolerance, np.generic) and np.issubdtype(tolerance.dtype, np.floating)
+    # N.B. TimeSpanScalar derives from np.float64, so it must not be treated as a plain float.
+    if not isinstance(tolerance, TimeSpanScalar) and (
+        isinstance(tolerance, float)
+        or (isinstance(tolerance, np.generic) and np.issubdtype(tolerance.dtype, np.floating))
     ):
         if tolerance < 0 or isnan(tolerance):
             raise ValueError(negative_tol_errmsg)
-- 
2.43.0


From e634ce9ea59333593024aa0577a1343eebf4af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:05 +0000
Subject: [PATCH 10/78] fix: merge_asof/merge_asof2(copy=False) no longer make
 the left Dataset's columns read-only

---
 riptable/rt_merge.py      | 3 ++-
 riptable/rt_merge_asof.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 34ede27..c51a7fb 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -4253,7 +4253,8 @@ class _AsOfMerge:
 
         def readonly_array_wrapper(arr: FastArray) -> FastArray:
             """Create a read-only view of an array."""
-            new_arr = FastArray(arr)
+            # slice: FastArray(arr) may be `arr` itself, which has to stay writeable
+            new_arr = arr[:]
             new_arr.flags.writeable = False
             return new_arr
 
diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index cd8ca7a..accb3e6 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -1668,7 +1668,8 @@ def merge_asof2(
 
     def readonly_array_wrapper(arr: FastArray) -> FastArray:
         """Create a read-only view of an array."""
-        new_arr = FastArray(arr)
+        # slice: FastArray(arr) may be `arr` itself, which has to stay writeable
+        new_arr = arr[:]
         new_arr.flags.writeable = False
         return new_arr
 
-- 
2.43.0


From 0d649165ae1db7fdba174c2f17f9c58989fb8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:32 +0000
Subject: [PATCH 11/78] fix: apply_reduce infers the result dtype per column
 and accepts a dtype class

---
 riptable/rt_grouping.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 2a55df1..9e34041 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2744,10 +2744,13 @@ class Grouping:
                         return_ds[colname] = arr[base_bin:]
 
                 else:
+                    # each column gets its own output array (and its own inferred dtype)
+                    return_arr = None
                     if dtype is not None:
                         # if they specified a single dtype, allocate the array
-                        return_arr = empty((return_rows,), dtype=dtype)
-                        invalid = INVALID_DICT[dtype.num]
+                        coldtype = np.dtype(dtype)
+                        return_arr = empty((return_rows,), dtype=coldtype)
+                        invalid = INVALID_DICT[coldtype.num]
 
                     # loop over all groups
                     # TODO: consider c++ loop? (i.e. vectorize this)
@@ -2774,11 +2777,11 @@ class Grouping:
                                 else:
                                     # first time we got back data -- we can determine the dtype now
                                     if hasattr(result, "dtype"):
-                                        dtype = result.dtype
+                                        coldtype = result.dtype
                                     else:
-                                        dtype = np.dtype(type(result))
-                                    return_arr = empty((return_rows,), dtype=dtype)
-                                    invalid = INVALID_DICT[dtype.num]
+                                        coldtype = np.dtype(type(result))
+                                    return_arr = empty((return_rows,), dtype=coldtype)
+                                    invalid = INVALID_DICT[coldtype.num]
 
                             return_arr[i] = result
                         else:
-- 
2.43.0


From aa438c88c39acfabf23752a2552a2496c5f7bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:47 +0000
Subject: [PATCH 12/78] fix: Grouping.isin reports False for filtered and
 invalid rows

---
 riptable/rt_grouping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 9e34041..26637ac 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1364,15 +1364,15 @@ class Grouping:
         """
         if self.isenum:
             found, _ = self.ismember(values)
-            # expand boolean found
-            return found[self.ikey - 1]
+            # expand boolean found, a filtered or invalid row (bin 0) belongs to no category
+            return found[self.ikey - 1] & (self.ikey != 0)
         else:
             found, _ = self.ismember(values)
             # expand with a zero-base index
             if self.base_index == 0:
                 return found[self.catinstance]
             else:
-                return found[self.catinstance - 1]
+                return found[self.catinstance - 1] & (self.catinstance != 0)
 
         # mask = None
         # result_len = len(self.catinstance)
-- 
2.43.0


From c768573d75055e3598d4889eb44540e7d476f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:52 +0000
Subject: [PATCH 13/78] fix: transform=True returns each row's own group result
 when the base index is 0

---
 riptable/rt_groupbyops.py | 3 ++-
 riptable/rt_grouping.py   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 9dec598..0be5f16 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -339,7 +339,8 @@ class GroupByOps(ABC):
         if getattr(self, "_transform", False) or transform:
             ikey = self.grouping.ikey
             showfilter = kwargs.get("showfilter", False)
-            if not showfilter and self.grouping.base_index == 1:
+            # NOTE: grouping.ikey is 1-based, even when the base index is 0
+            if not showfilter:
                 ikey = ikey - 1
             # use fancy indexing to pull the values from the cells, back to original array
             newds = {}
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 26637ac..dce5c0c 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3529,6 +3529,7 @@ class Grouping:
         else:
             base = 1
 
+        ikey = self.ikey
         if filter is not None:
             # create a temp filter where nonfilter is 0
             ikey = where(filter, self.ikey, 0)
@@ -3538,12 +3539,12 @@ class Grouping:
         else:
             # ncountgroup will call BinCount if it needs to
             ncountkey = self.ncountgroup
-            ikey = self.ikey
 
         # skip if base 1
         countcol = ncountkey[base:]
         if transform:
-            if not showfilter and self.base_index == 1:
+            # NOTE: ikey is 1-based, even when the base index is 0
+            if not showfilter:
                 countcol = countcol[self.ikey - 1]
             else:
                 countcol = countcol[ikey]
-- 
2.43.0


From 71b0012a47ff1d2aba40e2934d169077d51b82dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:36 +0000
Subject: [PATCH 14/78] fix: makeinext/makeiprev no longer wrap row numbers
 around in a narrow key dtype

---
 riptable/rt_numpy.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 296ccbe..b91f0e6 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1820,6 +1820,13 @@ def makeilast(key, unique_count: int, filter=None) -> np.ndarray:
 
 
 # -------------------------------------------------------
+def _widen_for_rows(key: np.ndarray) -> np.ndarray:
+    """`key`, in a wider integer dtype if its row numbers do not fit into its own dtype."""
+    if len(key) > np.iinfo(key.dtype).max:
+        key = key.astype(np.int32 if len(key) <= np.iinfo(np.int32).max else np.int64)
+    return key
+
+
 def makeinext(key, unique_count: int) -> np.ndarray:
     """
     Parameters
@@ -1831,10 +1838,10 @@ def makeinext(key, unique_count: int) -> np.ndarray:
 
     Returns
     -------
-    An index array of the same dtype and length of the next row
+    An index array of the same length of the next row, in the dtype of the key if all row numbers fit into it
     The index array will have -MAX_INT set to any locations it could not find a next
     """
-    return rc.MakeiNext(key, unique_count, 0)
+    return rc.MakeiNext(_widen_for_rows(key), unique_count, 0)
 
 
 # -------------------------------------------------------
@@ -1851,7 +1858,7 @@ def makeiprev(key, unique_count: int) -> np.ndarray:
     -------
     The index array will have -MAX_INT set to any locations it could not find a previous
     """
-    return rc.MakeiNext(key, unique_count, 1)
+    return rc.MakeiNext(_widen_for_rows(key), unique_count, 1)
 
 
 # -------------------------------------------------------
-- 
2.43.0


From 0b527ba1661024c05f7b160252eafac29e6ea668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:01 +0000
Subject: [PATCH 15/78] fix: groupby operations on a Categorical or Grouping
 sliced with a step use the sliced rows

---
 riptable/rt_grouping.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index dce5c0c..da0928b 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1538,6 +1538,11 @@ class Grouping:
                 raise ValueError("Internal error generating ikey")
 
             # enum path needs to go through hash, lazy-eval here
+
+        # the low-level routines assume contiguous bins, but slicing with a step makes a strided view.
+        # the view itself is kept, since it may share its memory with a Categorical
+        if self._iKey.ndim == 1 and self._iKey.strides[0] != self._iKey.itemsize:
+            return self._iKey.copy()
         return self._iKey
 
     # ---------------------------------------------------------------
-- 
2.43.0


From d4b4e9081d1276d9ab1e314ffebddc405302919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:39 +0000
Subject: [PATCH 16/78] fix: shrink(misc=) gives other values the misc category
 when new categories do not occur in the old ones

---
 riptable/rt_grouping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index da0928b..35d7331 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2014,9 +2014,10 @@ class Grouping:
             if misc is not None:
                 # everything already 0 stays 0
                 zeromask = self.catinstance == 0
-                maxvalue = max(idx) + 1
+                # misc comes after all of the new categories, whether or not they occur
+                maxvalue = len(newcats[0]) + 1
                 # everything filtered out gets MISC
-                idx[~mask] = maxvalue
+                idx = where(mask, idx.astype(np.int64), maxvalue)
                 idx = hstack([0, idx, maxvalue])
                 oldcats = newcats
                 newcats = []
-- 
2.43.0


From a2d8158632d6b699a3df82fc26aaebe1228bc622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:51 +0000
Subject: [PATCH 17/78] fix: ismember reads the right elements of arrays sliced
 with a step

---
 riptable/rt_numpy.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index b91f0e6..3373794 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1300,7 +1300,7 @@ def ismember(
         # arg5 - a base index
         # arg6 - b base index
         b, f = rc.IsMemberCategoricalFixup(
-            a._fa, b._fa, on_unique.astype(np.int32), int(num_unique_b), a.base_index, b.base_index
+            _contiguous(a._fa), _contiguous(b._fa), on_unique.astype(np.int32), int(num_unique_b), a.base_index, b.base_index
         )
         return b, f
 
@@ -1385,6 +1385,7 @@ def ismember(
                 b = b.astype(common_type)
 
     # send to fastmath
+    a, b = _contiguous(a), _contiguous(b)
     if base_index == 1:
         return rc.IsMemberCategorical(a, b, h, hint_size)
     elif base_index is None or base_index == 0:
@@ -1820,6 +1821,13 @@ def makeilast(key, unique_count: int, filter=None) -> np.ndarray:
 
 
 # -------------------------------------------------------
+def _contiguous(arr):
+    """`arr` as a contiguous array: the low-level routines do not look at the strides of an array."""
+    if isinstance(arr, np.ndarray) and arr.ndim == 1 and not arr.flags.c_contiguous:
+        arr = arr.copy()
+    return arr
+
+
 def _widen_for_rows(key: np.ndarray) -> np.ndarray:
     """`key`, in a wider integer dtype if its row numbers do not fit into its own dtype."""
     if len(key) > np.iinfo(key.dtype).max:
-- 
2.43.0


From fa81907f3bbd9a388fdb379236574b061af9ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:51 +0000
Subject: [PATCH 18/78] fix: grouping filters and lexical grouping read the
 right elements of arrays sliced with a step

---
 riptable/rt_numpy.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 3373794..e9af14f 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1506,7 +1506,7 @@ def combine_filter(key, filter) -> FastArray:
     -----
     This routine can run in parallel.
     """
-    return rc.CombineFilter(key, filter)
+    return rc.CombineFilter(_contiguous(key), _contiguous(filter))
 
 
 # -------------------------------------------------------
@@ -1541,7 +1541,7 @@ def combine_accum1_filter(key1, unique_count1: int, filter=None):
      'unique_count': 5}
 
     """
-    iKey, iFirstKey, unique_count = rc.CombineAccum1Filter(key1, unique_count1, filter)
+    iKey, iFirstKey, unique_count = rc.CombineAccum1Filter(_contiguous(key1), unique_count1, _contiguous(filter))
     mkdict = {"iKey": iKey, "iFirstKey": iFirstKey, "unique_count": unique_count}
     return mkdict
 
@@ -2086,7 +2086,7 @@ def groupbyhash(
             common_len = common_len.pop()
             if common_len != 0:
                 iKey, iFirstKey, unique_count = rc.MultiKeyGroupBy32(
-                    list_arrays, hint_size, filter, hash_mode, cutoffs=cutoffs
+                    list_arrays, hint_size, _contiguous(filter), hash_mode, cutoffs=cutoffs
                 )
             else:
                 iKey = TypeRegister.FastArray([], dtype=np.int32)
@@ -2179,6 +2179,9 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
     if isinstance(list_arrays, np.ndarray):
         list_arrays = [list_arrays]
 
+    if isinstance(list_arrays, list):
+        list_arrays = [_contiguous(arr) for arr in list_arrays]
+
     if isinstance(list_arrays, list) and len(list_arrays) > 0:
         if not isinstance(list_arrays[0], np.ndarray):
             raise ValueError("groupbylex first argument is not a list of numpy arrays")
@@ -5518,7 +5521,7 @@ def bool_to_fancy(arr: np.ndarray, both: bool = False) -> FastArray:
     """
     if isinstance(arr, np.ndarray):
         if arr.dtype.char == "?":
-            return rc.BooleanToFancy(arr, both=both)
+            return rc.BooleanToFancy(_contiguous(arr), both=both)
         else:
             raise TypeError(f"Input array must be boolean. Got {arr.dtype}")
     else:
-- 
2.43.0


From 2f60a458a07d741fc80fd38a241a4de2b21b6843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:11 +0000
Subject: [PATCH 19/78] fix: reductions of an array sliced with a step (nansum
 was 0, mean/std/nanmax raised)

---
 riptable/rt_fastarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index e65efcc..e85bf88 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2152,7 +2152,8 @@ class FastArray(np.ndarray):
             result = npFunc(self._np, *args, **kwargs)
             return result
 
-        result = TypeRegister.MathLedger._REDUCE(self, reduceFunc)
+        # the low-level routine gives up (returns None) on an array that is not contiguous
+        result = TypeRegister.MathLedger._REDUCE(self if self.flags.c_contiguous else self.copy(), reduceFunc)
 
         # It's possible there was no result returned from the reduction function;
         # e.g. if the input was empty. If the function being called is well-defined
-- 
2.43.0


From 9c9cf43ac4aa2dc7da081204e76b26242d7f234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:14 +0000
Subject: [PATCH 20/78] fix: searchsorted and interp read the right elements of
 arrays sliced with a step

---
 riptable/rt_numpy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index e9af14f..7ebd927 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -680,11 +680,11 @@ def _searchsorted(array, v, side="left", sorter=None):
         try:
             res = None
             if side == "leftplus":
-                res = rc.BinsToCutsBSearch(v, array, 0)
+                res = rc.BinsToCutsBSearch(_contiguous(v), _contiguous(array), 0)
             elif side == "left":
-                res = rc.BinsToCutsBSearch(v, array, 1)
+                res = rc.BinsToCutsBSearch(_contiguous(v), _contiguous(array), 1)
             else:
-                res = rc.BinsToCutsBSearch(v, array, 2)
+                res = rc.BinsToCutsBSearch(_contiguous(v), _contiguous(array), 2)
 
             if is_scalar and not np.isscalar(res):
                 res = res[0]
@@ -5410,7 +5410,7 @@ def interp(x, xp, fp):
         warnings.warn("rt.interp is downcasting to a float32 to match first array", stacklevel=2)
         xp = xp.astype(np.float32)
         fp = fp.astype(np.float32)
-    return rc.InterpExtrap2d(x, xp, fp, 1)
+    return rc.InterpExtrap2d(_contiguous(x), _contiguous(xp), _contiguous(fp), 1)
 
 
 # -------------------------------------------------------
@@ -5432,7 +5432,7 @@ def interp_extrap(x, xp, fp):
     * riptable version handles floats or doubles, wheras np is always a double
     * 2d mode is auto-detected based on `xp`/`fp`
     """
-    return rc.InterpExtrap2d(x, xp, fp, 0)
+    return rc.InterpExtrap2d(_contiguous(x), _contiguous(xp), _contiguous(fp), 0)
 
 
 # -------------------------------------------------------
-- 
2.43.0


From a1aedc67dc15895f30cfc84d975289f8b87cff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:07 +0000
Subject: [PATCH 21/78] fix: groupbylex tells apart multikey rows that differ
 only in the last of 7 bytes

---
 riptable/rt_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 7ebd927..31f4678 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2190,6 +2190,9 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
             # make a record array for greater comparison speed
             # TODO: future optimization - rotate in parallel
             value_array = np.core.records.fromarrays(list_arrays)
+            if value_array.itemsize == 7:
+                # GroupFromLexSort may ignore the last byte of 7-byte records, so pad them
+                value_array = np.core.records.fromarrays([*list_arrays, np.zeros(len(value_array), dtype=np.uint8)])
 
             if rec:
                 # user can also specify to sort with all arrays lumped together
-- 
2.43.0


From a9874fedab497f036cbd2873706810ee9127ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:51 +0000
Subject: [PATCH 22/78] fix: group-by aggregations accept one-row arrays sliced
 with a step

---
 riptable/rt_grouping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 35d7331..aea81bd 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3396,6 +3396,10 @@ class Grouping:
                 if max > unique_rows:
                     print("max out of range", max, unique_rows)
 
+            if funcNum < GB_FUNC_NUMBA:
+                # a strided array of length 1 is flagged as contiguous, but riptide_cpp does not accept its strides
+                values = [v.copy() if v.ndim == 1 and v.strides[0] != v.itemsize else v for v in values]
+
             # special check
             if funcNum == GB_FUNCTIONS.GB_ROLLING_COUNT:
                 # TJD note cumcount is similar to count() -- it is special in that it returns one array always
-- 
2.43.0


From 28d6fc3d82edfbd99e6543236e27376161b2bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:51 +0000
Subject: [PATCH 23/78] fix: rolling_quantile/rolling_median on a base-0
 Categorical

---
 riptable/rt_groupbyops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 0be5f16..a92650a 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -3029,7 +3029,7 @@ class GroupByOps(ABC):
 
         answers = []
 
-        window = min(window, len(self.grouping._iKey))
+        window = min(window, len(self.grouping.ikey))
 
         for quantile in q:
             funcParam = rolling_quantile_funcParam(quantile, window)
-- 
2.43.0


From edd6a9bd11ca9b40e0243bc1b5d1ce35a6ba2a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:08 +0000
Subject: [PATCH 24/78] fix: count_uniques on a base-0 Categorical

---
 riptable/rt_groupbyops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index a92650a..6679f22 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -1086,7 +1086,7 @@ class GroupByOps(ABC):
             newdict = {}
             for colname, arr in origdict.items():
                 if colname not in gbk:
-                    mcat = TypeRegister.Categorical([g.catinstance, arr], filter=filter)
+                    mcat = TypeRegister.Categorical([g.ikey, arr], filter=filter)
                     if transform:
                         result = self.nansum(mcat.first_bool, transform=transform)[-1]
                     else:
-- 
2.43.0


From 07e484882c85db4d6712ca2b4204f0da81af9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:19 +0000
Subject: [PATCH 25/78] fix: mapping_replace drops the replaced name from the
 mapping

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index bb110d5..b64cf4b 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1083,6 +1083,7 @@ class Categories:
                 elif how == "replace":
                     if value is not None:
                         if exists is not False:
+                            del self.str2intdict[exists]
                             self.int2strdict[code] = value
                             self.str2intdict[value] = code
                         else:
-- 
2.43.0


From 6bd1952646591956ec29d3dad17790d0c728d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:19 +0000
Subject: [PATCH 26/78] fix: copy of a base-0 Categorical keeps its base index

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index b64cf4b..0943d2b 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1760,6 +1760,7 @@ class Categorical(GroupByOps, FastArray):
                                 index,
                                 categories=_from_categorical.categories_as_dict(),
                                 sort_display=_sort_gb,
+                                base_index=base_index,
                                 categorical=True,
                                 dtype=dtype,
                                 _trusted=True,
-- 
2.43.0


From 288022b39e6dc03cc4312a4a4a32db6da0d3eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:28 +0000
Subject: [PATCH 27/78] fix: category_add, category_replace and auto_add keep
 the grouping in step with the categories

---
 riptable/rt_categorical.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 0943d2b..9b1836d 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1164,7 +1164,7 @@ class Categories:
                     if len(new_exists) == 1:
                         return replace_idx + self.base_index, new_exists[0]
                     else:
-                        self._list[replace_idx] = new_value
+                        self._list = hstack([self._list[:replace_idx], new_value, self._list[replace_idx + 1 :]])
                         self._ordered = False
                         self._sorted = False
                 else:
@@ -3875,6 +3875,7 @@ class Categorical(GroupByOps, FastArray):
             self._categories_wrap._array_edit(value, how="add")
             self._ordered = False
             self._sorted = False
+            self._sync_grouping()
         else:
             raise ValueError(f"Cannot add category to locked Categorical. Call unlock() first.")
         self.groupby_reset()
@@ -3910,10 +3911,30 @@ class Categorical(GroupByOps, FastArray):
             else:
                 self._ordered = False
                 self._sorted = False
+                self._sync_grouping()
         else:
             raise ValueError(f"Cannot remove category from locked Categorical. Call unlock() first.")
         self.groupby_reset()
 
+    # -------------------------------------------------------
+    def _sync_grouping(self):
+        """
+        Internal routine to rebuild the grouping object after the category array was modified.
+        """
+        grouping = self.grouping
+        categories = self._categories_wrap
+        self._grouping = Grouping(
+            self._fa,
+            categories={[*grouping.uniquedict][0]: categories._first_list},
+            base_index=grouping.base_index,
+            ordered=categories._ordered,
+            sort_display=self._sort_gb,
+            categorical=True,
+            unicode=True,
+            _trusted=True,
+        )
+        categories._grouping = self._grouping.copy(deep=False)
+
     @classmethod
     def _from_maybe_non_unique_labels(cls, values, categories, base_index=1):
         """
@@ -4342,8 +4363,10 @@ class Categorical(GroupByOps, FastArray):
                 # add the category, clean up the index array afterwards
                 fix_index = self._categories_wrap._possibly_add_categories(value)
                 if fix_index is not None:
-                    # must be inplace to change self
-                    self._fa[:] = fix_index[self._fa - self.base_index] + self.base_index
+                    # must be inplace to change self, filtered items stay in their bin
+                    valid = self._fa >= self.base_index
+                    self._fa[valid] = fix_index[self._fa[valid] - self.base_index] + self.base_index
+                    self._sync_grouping()
                 # convert string to int index
                 # we know value will have an exact match
                 value = self._categories_wrap.get_category_match_index(value)
-- 
2.43.0


From cc8872075a24557696bfab3a8dd2f7d7916544f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:28 +0000
Subject: [PATCH 28/78] fix: assigning a Categorical with other categories
 looks its values up

---
 riptable/rt_categorical.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 9b1836d..6538eb7 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4343,10 +4343,25 @@ class Categorical(GroupByOps, FastArray):
             # check if already aligned, if so can use same integers
             is_same, catlist = Categorical.categories_equal([self, value])
             value = catlist[1]
-            if not is_same:
-                # convert back to strings (slow)
-                # TODO: multikey will fail here
-                value = self.expand_array
+            if self.isenum and value.isenum:
+                # same codes, as long as the mappings do not conflict
+                categorical_merge_dict([self, value], return_is_safe=True)
+                value = value._fa
+            elif is_same and self.base_index == value.base_index:
+                value = value._fa
+            else:
+                # look up each of the other's categories in our own
+                newcats, mycats = [*value.category_dict.values()], [*self.category_dict.values()]
+                if len(newcats) == 1 and len(mycats) == 1:
+                    newcats, mycats = newcats[0], mycats[0]
+                found, codes = ismember(newcats, mycats)
+                # the filtered bin comes first
+                found = hstack([FastArray([self.base_index == 1]), found])
+                codes = hstack([FastArray([0]), codes + self.base_index])
+                ikey = value.ikey
+                if not found[ikey].all():
+                    raise ValueError(f"Cannot set items from a Categorical with values that are not in the categories.")
+                value = codes[ikey]
 
         # first check if the value is string like
         # if it is, we have to convert it to an index first
-- 
2.43.0


From 94e38e66deddfe4dc21ac5eddde11cbbecc88a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:28 +0000
Subject: [PATCH 29/78] fix: comparing a Categorical with a numpy float32
 scalar

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 6538eb7..76cc78f 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4751,7 +4751,7 @@ class Categorical(GroupByOps, FastArray):
         func = None
 
         # COMPARE TO INTEGER (numeric array categoricals will get handled differently)
-        if isinstance(other, (int, np.integer, float, np.float64)):
+        if isinstance(other, (int, np.integer, float, np.floating)):
             # error will be raised if doesn't match categories
             if not self.isenum:
                 other = self._categories_wrap.get_category_index(other)
-- 
2.43.0


From 0e8712a97135cbae9c67b753db11ea6a6e396bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:28 +0000
Subject: [PATCH 30/78] fix: comparing Categoricals with different base index
 or category order

---
 riptable/rt_categorical.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 76cc78f..c39f4ef 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4802,9 +4802,10 @@ class Categorical(GroupByOps, FastArray):
                     raise ValueError(f"Could not compare categoricals because of conflicting items in dictionaries.")
 
             else:
-                oldidx = [self._fa, other._fa]
+                # the grouping's ikey is base 1 for both, and the merged uniques must be sorted for < <= > >=
+                oldidx = [self.ikey, other.ikey]
                 oldcats = [[self.category_array, other.category_array]]
-                newidx, _ = merge_cats(oldidx, oldcats)
+                newidx, _ = merge_cats(oldidx, oldcats, ordered=func_name not in ("__eq__", "__ne__"))
                 # print('***newidx', newidx)
                 # merge index returns stacked
                 newidx_self = newidx[: len(self)]
-- 
2.43.0


From 8d391e220748509291c67ade6be9b5b1034f5fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:59 +0000
Subject: [PATCH 31/78] fix: nansum/mean/nanmean/var/std of a 2-D FastArray
 along axis 0

axis=0 was dropped as if no axis had been given, so the whole array was reduced to one number.
---
 riptable/rt_fastarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index e85bf88..5d5e0d4 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -3174,7 +3174,8 @@ class FastArray(np.ndarray):
 
         if dtype is not None:
             kwargs["dtype"] = dtype
-        if axis:
+        # a one-dimensional array has nothing but axis 0
+        if axis or (axis is not None and self.ndim > 1):
             kwargs["axis"] = axis
         if keepdims:
             kwargs["keepdims"] = keepdims
-- 
2.43.0


From 0fd58f6a18795759c8b4bb1dee989a2039e29eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:59 +0000
Subject: [PATCH 32/78] fix: rt.nanmin/rt.nanmax of a strided array

The low-level routine returns None for an array that is not contiguous, and the None check then raised a TypeError.
---
 riptable/rt_numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 31f4678..96fbdf7 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3599,7 +3599,7 @@ def nanmin(*args, **kwargs):
     else:
         # Call the implementation of this function in riptable_cpp via the Ledger class/dispatcher.
         if isinstance(firstarg, TypeRegister.FastArray):
-            result = TypeRegister.MathLedger._REDUCE(firstarg, REDUCE_FUNCTIONS.REDUCE_NANMIN)
+            result = TypeRegister.MathLedger._REDUCE(_contiguous(firstarg), REDUCE_FUNCTIONS.REDUCE_NANMIN)
         else:
             result = LedgerFunction(np.nanmin, *args, **kwargs)
 
@@ -3641,7 +3641,7 @@ def nanmax(*args, **kwargs):
     else:
         # Call the implementation of this function in riptable_cpp via the Ledger class/dispatcher.
         if isinstance(firstarg, TypeRegister.FastArray):
-            result = TypeRegister.MathLedger._REDUCE(firstarg, REDUCE_FUNCTIONS.REDUCE_NANMAX)
+            result = TypeRegister.MathLedger._REDUCE(_contiguous(firstarg), REDUCE_FUNCTIONS.REDUCE_NANMAX)
         else:
             result = LedgerFunction(np.nanmax, *args, **kwargs)
 
-- 
2.43.0


From 8fec20fe808e065234b76951cb7f80b6ee66a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:23 +0000
Subject: [PATCH 33/78] fix: astype of a strided array keeps invalids invalid

It fell through to the conversion of NumPy, which turns the integer sentinel into an ordinary number.
---
 riptable/rt_fastarray.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 5d5e0d4..9d8baeb 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1415,11 +1415,15 @@ class FastArray(np.ndarray):
         # 19 = UNICODE string
         to_num = np.dtype(dtype).num
 
-        # check for contiguous in one or two dimensions
+        # the conversion below does not look at strides
         if self.flags.f_contiguous or self.flags.c_contiguous:
-            if order == "K" and subok and copy and self.dtype.num <= 13 and to_num <= 13:
-                # perform a safe conversion understanding sentinels
-                return TypeRegister.MathLedger._AS_FA_TYPE(self, to_num)
+            arr = self
+        else:
+            arr = self.copy()
+
+        if order == "K" and subok and copy and self.dtype.num <= 13 and to_num <= 13:
+            # perform a safe conversion understanding sentinels
+            return TypeRegister.MathLedger._AS_FA_TYPE(arr, to_num)
 
         # punt to numpy
         result = TypeRegister.MathLedger._ASTYPE(super(FastArray, self), dtype, order, casting, subok, copy)
-- 
2.43.0


From 6c78e420dea093ad8e623c1f2543c3bbe858f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:23 +0000
Subject: [PATCH 34/78] fix: ufuncs and ufunc reductions of a strided array
 treat invalids as for a contiguous one

A strided input was handed to NumPy, which knows nothing of the integer sentinels: e.g. max() of a slice
ignored an invalid, and adding a float to it gave a number for the invalid element.
---
 riptable/rt_fastarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 9d8baeb..f7dd382 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -43,6 +43,7 @@ from .rt_grouping import Grouping
 from .rt_misc import _use_autocomplete_placeholder
 from .rt_mlutils import normalize_minmax, normalize_zscore
 from .rt_numpy import (
+    _contiguous,
     _searchsorted,
     asanyarray,
     bool_to_fancy,
@@ -4755,6 +4756,9 @@ class FastArray(np.ndarray):
         args: List[Any] = []
         for input in inputs:
             if isinstance(input, np.ndarray):
+                if (method == "reduce" or (method == "__call__" and ufunc.nin == 2)) and input.ndim == 1:
+                    # the result must not depend on how the array is laid out in memory
+                    input = _contiguous(input)
                 is_not_supported = self._is_not_supported(input)
                 if is_not_supported:
                     # TODO enable this warning in a future minor release
-- 
2.43.0


From 84864201cd299f9ccdaa29c45789968ecd8817e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:05 +0000
Subject: [PATCH 35/78] fix: Dataset.nanmin/nanmax with a column that is not
 computable

The default fill_value named the Dataset methods min/max, defined above in the class body, instead of the
functions, so any string column made the call raise.
---
 riptable/rt_dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index c6efa2a..ebfce3b 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -83,9 +83,11 @@ from .rt_numpy import (
     mask_andi,
     mask_ori,
     max,
+    max as _rt_max,
     mean,
     median,
     min,
+    min as _rt_min,
     nanargmax,
     nanargmin,
     nanmax,
@@ -6667,11 +6669,12 @@ class Dataset(Struct):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmedian, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-    def nanmin(self, axis=0, as_dataset=True, fill_value=min):
+    # N.B. here `min` and `max` are the methods defined above
+    def nanmin(self, axis=0, as_dataset=True, fill_value=_rt_min):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmin, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-    def nanmax(self, axis=0, as_dataset=True, fill_value=max):
+    def nanmax(self, axis=0, as_dataset=True, fill_value=_rt_max):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmax, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-- 
2.43.0


From 55d1c341c86af87de4217d16e0dfa5467ef74f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:05 +0000
Subject: [PATCH 36/78] fix: get_min_valid of an unsigned integer type in
 Python

It returned the invalid value; the compiled overload was right.
---
 riptable/numba/invalid_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/numba/invalid_values.py b/riptable/numba/invalid_values.py
index aa1d74f..d36cab9 100644
--- a/riptable/numba/invalid_values.py
+++ b/riptable/numba/invalid_values.py
@@ -276,7 +276,7 @@ def get_min_valid(x):
 
     elif np.issubdtype(x_dtype, np.integer):
         dtype_iinfo = np.iinfo(x_dtype)
-        return dtype_iinfo.min + 1 if np.issubdtype(x_dtype, np.signedinteger) else dtype_iinfo.max
+        return dtype_iinfo.min + 1 if np.issubdtype(x_dtype, np.signedinteger) else dtype_iinfo.min
 
     elif np.issubdtype(x_dtype, bool):
         return False
-- 
2.43.0


From 4bac40d5c0b53d44aba4177f437b63be8e149016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 37/78] fix: rt.where with a strided condition or strided
 choices

The low-level routine reads its inputs as if they were contiguous, so elements were picked by the wrong rows
of the condition.
---
 riptable/rt_numpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 96fbdf7..7ebeac0 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3160,8 +3160,10 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
             return arr
 
         # check if we need to upcast
-        x = _possibly_convert(x)
-        y = _possibly_convert(y)
+        # the low-level routine does not look at the strides of its inputs
+        condition = _contiguous(condition)
+        x = _possibly_convert(_contiguous(x))
+        y = _possibly_convert(_contiguous(y))
 
         # call down into C++ version of where.
         # result will be None if operation is not supported.
-- 
2.43.0


From 22fae04ed6f435e07a1823b75faf28be775b525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 38/78] fix: differs/transitions of a strided array

The comparison was not done at all and the result was an uninitialised array.
---
 riptable/rt_fastarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index f7dd382..9fb41d0 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4134,6 +4134,10 @@ class FastArray(np.ndarray):
     # -------------------------------------------------------
     def _internal_self_compare(self, math_op, periods=1, fancy=False):
         """internal routine used for differs and transitions"""
+        if not self.flags.c_contiguous:
+            # the low-level routine gives up on an array that is not contiguous
+            self = self.copy()
+
         result = empty_like(self, dtype=np.bool_)
 
         if periods == 0:
-- 
2.43.0


From 6d2730afa403cb3180fd89951099e4a157de6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:33 +0000
Subject: [PATCH 39/78] fix: differs of a string array

It flagged the elements that are not equivalent, the opposite of what it documents and does for numbers.
---
 riptable/rt_fastarray.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 9fb41d0..407fe2b 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4221,7 +4221,12 @@ class FastArray(np.ndarray):
                    False, False])
         """
         if self.dtype.num > 13:
-            result = self != self.shift(periods)
+            result = self == self.shift(periods)
+            # nothing to compare with at the end that was shifted in
+            if periods > 0:
+                result[:periods] = False
+            elif periods < 0:
+                result[periods:] = False
             if fancy:
                 return bool_to_fancy(result)
             return result
-- 
2.43.0


From c5600c2b61db62c741a3268cfdbe5d7b293fc19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:54 +0000
Subject: [PATCH 40/78] fix: assigning through a strided boolean mask, or into
 a strided array

The low-level routine reads the mask and writes the array as if they were contiguous: a strided mask selected
the wrong elements, and a strided array had only some of the selected elements written.
---
 riptable/rt_fastarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 407fe2b..284395f 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1290,6 +1290,10 @@ class FastArray(np.ndarray):
                     # re-test support, just to be sure.
                     is_unsupported = self._is_not_supported(newvalue)
 
+                # our setitem does not look at strides: a strided mask is copied, a strided array left to numpy
+                fld = _contiguous(fld)
+                is_unsupported |= not self.flags.c_contiguous
+
                 # if supported, call our setitem, it will return False if it fails
                 if not is_unsupported:
                     if rc.SetItem(self, fld, newvalue):
-- 
2.43.0


From 2491e5c1ec0e9ece01c1d1ff313d2dd22f96df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:54 +0000
Subject: [PATCH 41/78] fix: indexing with invalid row numbers when the array
 or the index is strided

Invalid row numbers give invalid elements, but a strided array or index was left to NumPy, which raised.
---
 riptable/rt_fastarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 284395f..99f3065 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1326,6 +1326,8 @@ class FastArray(np.ndarray):
 
             # if we have fancy indexing and we support the array type, make sure we do not have stride problem
             if fld.dtype.char in NumpyCharTypes.AllInteger and self.dtype.char in NumpyCharTypes.SupportedAlternate:
+                if self.ndim == 1 and fld.ndim == 1:
+                    return TypeRegister.MathLedger._MBGET(_contiguous(self), _contiguous(fld))
                 if self.flags.f_contiguous and fld.flags.f_contiguous:
                     if len(self.shape) == 1:
                         return TypeRegister.MathLedger._MBGET(self, fld)
-- 
2.43.0


From 554b70afb1c7ebc21f50448854300db439e90388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:54 +0000
Subject: [PATCH 42/78] fix: a one-element view of a strided array is not
 contiguous for the low-level routines

NumPy calls such a view contiguous whatever its stride, but the low-level routines refuse it.
---
 riptable/rt_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 7ebeac0..d2bd243 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1823,7 +1823,7 @@ def makeilast(key, unique_count: int, filter=None) -> np.ndarray:
 # -------------------------------------------------------
 def _contiguous(arr):
     """`arr` as a contiguous array: the low-level routines do not look at the strides of an array."""
-    if isinstance(arr, np.ndarray) and arr.ndim == 1 and not arr.flags.c_contiguous:
+    if isinstance(arr, np.ndarray) and arr.ndim == 1 and arr.strides[0] != arr.itemsize and arr.size > 0:
         arr = arr.copy()
     return arr
 
-- 
2.43.0


From 03cd098722827ff94905542707ef3d581aa96a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:29 +0000
Subject: [PATCH 43/78] fix: Date.seconds_since_epoch overflows after 2038

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e549427..21659de 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -2094,7 +2094,7 @@ class Date(DateBase, TimeStampBase):
         Many existing python datetime routines expect seconds since epoch.
         This call is to eliminate "magic numbers" like 3600 from code.
         """
-        return _apply_inv_mask(self, self._fa * SECONDS_PER_DAY)
+        return _apply_inv_mask(self, self._fa.astype(np.int64) * SECONDS_PER_DAY)
 
     # ------------------------------------------------------------
     @classmethod
-- 
2.43.0


From 502af9f4e1e1b7c5f1cd2e621257ad1b059ea906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:29 +0000
Subject: [PATCH 44/78] fix: a field of a one-row invalid Date or DateTimeNano
 keeps the dtype its invalid belongs to, and operand invalids are applied to
 one-row arrays

---
 riptable/rt_datetime.py | 49 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 21659de..b1bdd19 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -547,33 +547,28 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
     Called by time fraction properties and math operations.
     """
     if isinstance(arr1, np.ndarray):
-        if len(arr1) == 1:
-            # broadcast array of 1 path
-            if arr1[0] <= 0:
-                return TypeRegister.FastArray([INVALID_DICT[arr2.dtype.num]])
-            return arr2
-        else:
-            if arr1_inv_mask is None:
-                arr1_inv_mask = arr1.isnan()
-
-            if fillval is None:
-                # use the sentinel or nan for the return array type, e.g. year() returns int32
-                fillval = INVALID_DICT[arr2.dtype.num]
-            putmask(arr2, arr1_inv_mask, fillval)
-
-            # apply the invalid mask from an operation with another array
-            if arr2_inv_mask is not None:
-                # return invalid fill, fixes broadcasting if math operations
-                # was with a scalar or single item array
-                if np.isscalar(arr2_inv_mask):
-                    if arr2_inv_mask:
-                        arr2[:] = fillval
-                elif len(arr2_inv_mask) == 1:
-                    if arr2_inv_mask[0]:
-                        arr2[:] = fillval
-                else:
-                    putmask(arr2, arr2_inv_mask, fillval)
-            return arr2
+        if arr1_inv_mask is None:
+            arr1_inv_mask = arr1.isnan()
+
+        if fillval is None:
+            # use the sentinel or nan for the return array type, e.g. year() returns int32
+            fillval = INVALID_DICT[arr2.dtype.num]
+
+        # apply the invalid mask of this array, and the one from an operation with another array
+        for inv_mask in (arr1_inv_mask, arr2_inv_mask):
+            if inv_mask is None:
+                continue
+            # return invalid fill, fixes broadcasting if math operations
+            # was with a scalar or single item array
+            if np.isscalar(inv_mask):
+                if inv_mask:
+                    arr2[:] = fillval
+            elif len(inv_mask) == 1:
+                if inv_mask[0]:
+                    arr2[:] = fillval
+            else:
+                putmask(arr2, inv_mask, fillval)
+        return arr2
     else:
         # scalar path
         if arr1 <= 0:
-- 
2.43.0


From 35e3feda757f420e62dd70829f4a464d0c7cec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:25 +0000
Subject: [PATCH 45/78] fix: DateTimeNano.day_of_month uses the displayed
 timezone

---
 riptable/rt_datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index b1bdd19..8be9857 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3456,8 +3456,8 @@ class DateTimeCommon:
         int32 array
 
         """
-        arr = self._fa
-        year = self._year(arr, fix_dst=True)
+        arr = self._timezone.fix_dst(self._fa)
+        year = self._year(arr, fix_dst=False)
 
         # subtract the nanos from start of year so all times are in MM-DD HH:MM:SS, etc.
         startyear = arr - self._year_splits[year - 1970]
-- 
2.43.0


From 55b8c5aa566954d38ed85e0ad50e32ab6a9406d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:25 +0000
Subject: [PATCH 46/78] fix: DateTimeNano.date() uses the displayed timezone
 when it has no daylight saving

---
 riptable/rt_datetime.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 8be9857..5861dc1 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3275,12 +3275,8 @@ class DateTimeCommon:
 
 
         """
-        if self._timezone._dst_reverse is not None:
-            arr = self._timezone.fix_dst(self._fa)
-            arr = arr - (arr % NANOS_PER_DAY)
-        else:
-            arr = self._fa
-            arr = arr - (arr % NANOS_PER_DAY)
+        arr = self._timezone.fix_dst(self._fa)
+        arr = arr - (arr % NANOS_PER_DAY)
         # from_tz needs to match to_tz (similar to from_matlab_days, except can't force 'GMT' because of DST fixup)
         # return DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz='UTC')
         result = DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz=self._timezone._to_tz)
-- 
2.43.0


From 1665316cf4c7ae0e43bf82102209cb54fa799173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:25 +0000
Subject: [PATCH 47/78] fix: the minute of a DateTimeNano honours timezone
 offsets that are not whole hours

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 5861dc1..0ad23af 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3728,7 +3728,7 @@ class DateTimeCommon:
         None of these need to account for timezone.
         """
         inv_mask = self.isnan()
-        arr = self._fa % modulo
+        arr = self._timezone.fix_dst(self._fa) % modulo
         if span:
             if isinstance(self, DateTimeNano):
                 result = TypeRegister.TimeSpan(arr)
-- 
2.43.0


From e20c448b556ff3c4563875fb28680cbddca3dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:25 +0000
Subject: [PATCH 48/78] fix: a daylight-saving change takes effect at the very
 instant of the change

---
 riptable/rt_timezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 50e920a..325e3c8 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -1191,7 +1191,7 @@ class TimeZone:
         # is_dst = (FastArray(np.searchsorted(DST_CUTOFFS, arr)) & 1).astype(bool)
         # is_dst = (rc.BinsToCutsBSearch(arr, cutoffs, 0) & 1).astype(bool)
 
-        is_dst = (searchsorted(cutoffs, arr) & 1).astype(np.bool_)
+        is_dst = (searchsorted(cutoffs, arr, side="right") & 1).astype(np.bool_)
         return is_dst
 
     # ------------------------------------------------------------
-- 
2.43.0


From 52eb129a22e5f7572023834fa2a53fa3c57fa81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:25 +0000
Subject: [PATCH 49/78] fix: DateTimeNano.strftime does not round up to the
 next second or microsecond

---
 riptable/rt_datetime.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 0ad23af..afb6cc9 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -4147,27 +4147,23 @@ class DateTimeCommon:
         >>> dtn[0].strftime('%c')
         'Fri Jan  1 09:31:15 2021'
         """
-        in_seconds = self / NANOS_PER_SECOND
         to_tz = self._timezone._to_tz
         if to_tz in ["GMT", "UTC"]:
-            if isinstance(in_seconds, np.ndarray):
-                return np.asarray(
-                    [dt.fromtimestamp(timestamp, timezone.utc).strftime(format) for timestamp in in_seconds],
-                    dtype=dtype,
-                )
-            else:
-                return dt.strftime(dt.fromtimestamp(in_seconds, timezone.utc), format)
-
+            localzone = timezone.utc
         else:
             # Choose timezone from to_tz
             localzone = tz.gettz(self._timezone._timezone_str)
 
-            if isinstance(in_seconds, np.ndarray):
-                return np.asarray(
-                    [dt.fromtimestamp(timestamp, localzone).strftime(format) for timestamp in in_seconds], dtype=dtype
-                )
-            else:
-                return dt.strftime(dt.fromtimestamp(in_seconds, localzone), format)
+        def format_nanos(nanos):
+            # a float cannot hold the fraction of the second exactly
+            seconds, fraction = divmod(int(nanos), NANOS_PER_SECOND)
+            local = dt.fromtimestamp(seconds, localzone)
+            return local.replace(microsecond=fraction // NANOS_PER_MICROSECOND).strftime(format)
+
+        if isinstance(self, np.ndarray):
+            return np.asarray([format_nanos(nanos) for nanos in self._np], dtype=dtype)
+        else:
+            return format_nanos(self._np)
 
 
 # ========================================================
-- 
2.43.0


From ea939202b057b8f937525cbcccc49d8adcfb7d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:25 +0000
Subject: [PATCH 50/78] fix: DateTimeNanoScalar month, day_of_month, yyyymmdd
 and monthyear raise

---
 riptable/rt_datetime.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index afb6cc9..d2e920d 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -812,7 +812,10 @@ class TimeStampBase:
         smonth = self._yearday_splits.searchsorted(startyear, side="right")
 
         # get the months for leap and fix any leapyears with maskleap
-        putmask(smonth, maskleap, self._yearday_splits_leap.searchsorted(startyear, side="right"))
+        smonth_leap = self._yearday_splits_leap.searchsorted(startyear, side="right")
+        if not isinstance(smonth, np.ndarray):
+            return np.int32(smonth_leap if maskleap else smonth)
+        putmask(smonth, maskleap, smonth_leap)
         return smonth.astype(np.int32, copy=False).view(FastArray)
 
     # ------------------------------------------------------------
@@ -3306,6 +3309,8 @@ class DateTimeCommon:
         this routine is very similar to day_of_month - can probably internal routines to avoid repeating code
 
         """
+        if not isinstance(self, np.ndarray):
+            return DateTimeNano(self, from_tz="GMT", to_tz=self._timezone._to_tz).yyyymmdd[0]
         arr = self._fa
         arr = self._timezone.fix_dst(arr)
         year = self._year(arr, fix_dst=False)
@@ -3403,6 +3408,8 @@ class DateTimeCommon:
         >>> d.monthyear()
         FastArray([ 'Feb2000','Dec2018'])
         """
+        if not isinstance(self, np.ndarray):
+            return DateTimeNano(self, from_tz="GMT", to_tz=self._timezone._to_tz).monthyear()[0]
         month = self.month()
         yearstr = self.year().astype("S")
         return MONTH_STR_ARRAY[month - 1] + yearstr
@@ -3452,6 +3459,8 @@ class DateTimeCommon:
         int32 array
 
         """
+        if not isinstance(self, np.ndarray):
+            return DateTimeNano(self, from_tz="GMT", to_tz=self._timezone._to_tz).day_of_month[0]
         arr = self._timezone.fix_dst(self._fa)
         year = self._year(arr, fix_dst=False)
 
-- 
2.43.0


From f84863dbd54d73a76f1f9c2e5ddf01f9d8e46482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:01 +0000
Subject: [PATCH 51/78] fix: arithmetic on a DateTimeNanoScalar keeps its
 timezone

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index d2e920d..5ad86b4 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -4069,7 +4069,7 @@ class DateTimeCommon:
         """
         input1 = self
         if not isinstance(self, np.ndarray):
-            input1 = DateTimeNano(self)
+            input1 = DateTimeNano(self, from_tz="GMT", to_tz=self._timezone._to_tz)
 
         func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
         if call_super:
-- 
2.43.0


From a2e97af083892351d4b7685a2e7a50108cdf5451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:01 +0000
Subject: [PATCH 52/78] fix: calendar fields of an invalid DateTimeNano are
 invalid

---
 riptable/rt_datetime.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 5ad86b4..a17d0b5 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3124,8 +3124,8 @@ class DateTimeCommon:
         int64 array
 
         """
-        arr = self._timezone.fix_dst(self)
-        return arr // NANOS_PER_DAY
+        arr = self._timezone.fix_dst(self._fa)
+        return _apply_inv_mask(self, arr // NANOS_PER_DAY)
 
     # ------------------------------------------------------------
     @property
@@ -3143,8 +3143,8 @@ class DateTimeCommon:
         -------
         int64 array
         """
-        arr = self._timezone.fix_dst(self)
-        return arr // NANOS_PER_SECOND
+        arr = self._timezone.fix_dst(self._fa)
+        return _apply_inv_mask(self, arr // NANOS_PER_SECOND)
 
     # ------------------------------------------------------------
     def nanos_since_midnight(self):
@@ -3339,7 +3339,7 @@ class DateTimeCommon:
         final += monthnum.astype(np.int32) * 100
         final += (monthtime // NANOS_PER_DAY) + 1
 
-        return final
+        return _apply_inv_mask(self, final)
 
     # ------------------------------------------------------------
     @property
@@ -3438,7 +3438,7 @@ class DateTimeCommon:
             result = result // NANOS_PER_DAY
         result += 1
 
-        return result
+        return _apply_inv_mask(self, result)
 
     # ------------------------------------------------------------
     @property
@@ -3483,7 +3483,7 @@ class DateTimeCommon:
             monthtime = monthtime // NANOS_PER_DAY
         monthtime += 1
 
-        return monthtime
+        return _apply_inv_mask(self, monthtime)
 
     # ------------------------------------------------------------
     @property
@@ -3513,7 +3513,7 @@ class DateTimeCommon:
             np.mod(arr, 7, out=arr)
         else:
             arr = arr % 7
-        return arr
+        return _apply_inv_mask(self, arr)
 
     # ------------------------------------------------------------
     @property
@@ -3528,7 +3528,7 @@ class DateTimeCommon:
         arr -= adjust
         arr -= EPOCH_DAY_OF_WEEK
 
-        result = Date(arr)
+        result = Date(_apply_inv_mask(self, arr))
         if not isinstance(arr, np.ndarray):
             return result[0]
         return result
@@ -3981,7 +3981,7 @@ class DateTimeCommon:
         arr = self._timezone.fix_dst(self._fa)
         year = self._year(arr, fix_dst=False)
         arr = arr - self._year_splits[year - 1970]
-        return arr
+        return _apply_inv_mask(self, arr)
 
     # ------------------------------------------------------------
     def time_since_start_of_year(self):
-- 
2.43.0


From f383feead087659ba9d30a4c5c21902749fe7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:09 +0000
Subject: [PATCH 53/78] fix: the Europe/Dublin daylight-saving table is an hour
 off before 1981 and misses 1970-1971

---
 riptable/rt_timezone.py | 60 ++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 325e3c8..446ae0f 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -311,24 +311,27 @@ NYC_OFFSET_NS = 5 * NANOS_PER_HOUR
 
 DST_CUTOFFS_DUBLIN = FastArray(
     [
+        # Ireland kept summer time all year round until October 1971.
+        "1970-01-01 00:00:00",
+        "1971-10-31 03:00:00",
         "1972-03-19 02:00:00",
-        "1972-10-29 02:00:00",
+        "1972-10-29 03:00:00",
         "1973-03-18 02:00:00",
-        "1973-10-28 02:00:00",
+        "1973-10-28 03:00:00",
         "1974-03-17 02:00:00",
-        "1974-10-27 02:00:00",
+        "1974-10-27 03:00:00",
         "1975-03-16 02:00:00",
-        "1975-10-26 02:00:00",
+        "1975-10-26 03:00:00",
         "1976-03-21 02:00:00",
-        "1976-10-24 02:00:00",
+        "1976-10-24 03:00:00",
         "1977-03-20 02:00:00",
-        "1977-10-23 02:00:00",
+        "1977-10-23 03:00:00",
         "1978-03-19 02:00:00",
-        "1978-10-29 02:00:00",
+        "1978-10-29 03:00:00",
         "1979-03-18 02:00:00",
-        "1979-10-28 02:00:00",
+        "1979-10-28 03:00:00",
         "1980-03-16 02:00:00",
-        "1980-10-26 02:00:00",
+        "1980-10-26 03:00:00",
         "1981-03-29 02:00:00",
         "1981-10-25 02:00:00",
         "1982-03-28 02:00:00",
@@ -454,24 +457,27 @@ DST_CUTOFFS_DUBLIN = FastArray(
 
 DST_REVERSE_DUBLIN = FastArray(
     [
-        "1972-03-19 01:00:00",
-        "1972-10-29 01:00:00",
-        "1973-03-18 01:00:00",
-        "1973-10-28 01:00:00",
-        "1974-03-17 01:00:00",
-        "1974-10-27 01:00:00",
-        "1975-03-16 01:00:00",
-        "1975-10-26 01:00:00",
-        "1976-03-21 01:00:00",
-        "1976-10-24 01:00:00",
-        "1977-03-20 01:00:00",
-        "1977-10-23 01:00:00",
-        "1978-03-19 01:00:00",
-        "1978-10-29 01:00:00",
-        "1979-03-18 01:00:00",
-        "1979-10-28 01:00:00",
-        "1980-03-16 01:00:00",
-        "1980-10-26 01:00:00",
+        # Ireland kept summer time all year round until October 1971.
+        "1970-01-01 00:00:00",
+        "1971-10-31 02:00:00",
+        "1972-03-19 02:00:00",
+        "1972-10-29 02:00:00",
+        "1973-03-18 02:00:00",
+        "1973-10-28 02:00:00",
+        "1974-03-17 02:00:00",
+        "1974-10-27 02:00:00",
+        "1975-03-16 02:00:00",
+        "1975-10-26 02:00:00",
+        "1976-03-21 02:00:00",
+        "1976-10-24 02:00:00",
+        "1977-03-20 02:00:00",
+        "1977-10-23 02:00:00",
+        "1978-03-19 02:00:00",
+        "1978-10-29 02:00:00",
+        "1979-03-18 02:00:00",
+        "1979-10-28 02:00:00",
+        "1980-03-16 02:00:00",
+        "1980-10-26 02:00:00",
         "1981-03-29 01:00:00",
         "1981-10-25 01:00:00",
         "1982-03-28 01:00:00",
-- 
2.43.0


From dc1e2da5bf1df3723a686b6f1d6fdb7f5c270941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:09 +0000
Subject: [PATCH 54/78] fix: the Australia/Sydney daylight-saving table applies
 the 2008 rules to the years before them

---
 riptable/rt_timezone.py | 297 +++++++++++++++++++---------------------
 1 file changed, 142 insertions(+), 155 deletions(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 446ae0f..235845e 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -609,88 +609,79 @@ DUBLIN_OFFSET_NS = 0 * NANOS_PER_HOUR
 
 DST_CUTOFFS_Australia__Sydney = FastArray(
     [
-        # Prefix the array with one additional entry compared to timezones in the northern hemisphere.
-        # Code below in the TimeZone class assumes even-indexed entries represent start-of-DST transition times
-        # (local date/time within this timezone) and odd-numbered entries represent end-of-DST transition times.
-        # Timezones in the southern hemisphere start DST later in the year and end earlier in the year,
-        # so this one additional entry fixes the DST calculations below.
-        "1969-10-26 02:00:00",
-        "1970-04-05 03:00:00",
-        "1970-10-04 02:00:00",
-        "1971-04-04 03:00:00",
-        "1971-10-03 02:00:00",
-        "1972-04-02 03:00:00",
-        "1972-10-01 02:00:00",
-        "1973-04-01 03:00:00",
-        "1973-10-07 02:00:00",
-        "1974-04-07 03:00:00",
-        "1974-10-06 02:00:00",
-        "1975-04-06 03:00:00",
-        "1975-10-05 02:00:00",
-        "1976-04-04 03:00:00",
-        "1976-10-03 02:00:00",
-        "1977-04-03 03:00:00",
-        "1977-10-02 02:00:00",
-        "1978-04-02 03:00:00",
-        "1978-10-01 02:00:00",
-        "1979-04-01 03:00:00",
-        "1979-10-07 02:00:00",
-        "1980-04-06 03:00:00",
-        "1980-10-05 02:00:00",
-        "1981-04-05 03:00:00",
-        "1981-10-04 02:00:00",
+        "1971-10-31 02:00:00",
+        "1972-02-27 03:00:00",
+        "1972-10-29 02:00:00",
+        "1973-03-04 03:00:00",
+        "1973-10-28 02:00:00",
+        "1974-03-03 03:00:00",
+        "1974-10-27 02:00:00",
+        "1975-03-02 03:00:00",
+        "1975-10-26 02:00:00",
+        "1976-03-07 03:00:00",
+        "1976-10-31 02:00:00",
+        "1977-03-06 03:00:00",
+        "1977-10-30 02:00:00",
+        "1978-03-05 03:00:00",
+        "1978-10-29 02:00:00",
+        "1979-03-04 03:00:00",
+        "1979-10-28 02:00:00",
+        "1980-03-02 03:00:00",
+        "1980-10-26 02:00:00",
+        "1981-03-01 03:00:00",
+        "1981-10-25 02:00:00",
         "1982-04-04 03:00:00",
-        "1982-10-03 02:00:00",
-        "1983-04-03 03:00:00",
-        "1983-10-02 02:00:00",
-        "1984-04-01 03:00:00",
-        "1984-10-07 02:00:00",
-        "1985-04-07 03:00:00",
-        "1985-10-06 02:00:00",
-        "1986-04-06 03:00:00",
-        "1986-10-05 02:00:00",
-        "1987-04-05 03:00:00",
-        "1987-10-04 02:00:00",
-        "1988-04-03 03:00:00",
-        "1988-10-02 02:00:00",
-        "1989-04-02 03:00:00",
-        "1989-10-01 02:00:00",
-        "1990-04-01 03:00:00",
-        "1990-10-07 02:00:00",
-        "1991-04-07 03:00:00",
-        "1991-10-06 02:00:00",
-        "1992-04-05 03:00:00",
-        "1992-10-04 02:00:00",
-        "1993-04-04 03:00:00",
-        "1993-10-03 02:00:00",
-        "1994-04-03 03:00:00",
-        "1994-10-02 02:00:00",
-        "1995-04-02 03:00:00",
-        "1995-10-01 02:00:00",
-        "1996-04-07 03:00:00",
-        "1996-10-06 02:00:00",
-        "1997-04-06 03:00:00",
-        "1997-10-05 02:00:00",
-        "1998-04-05 03:00:00",
-        "1998-10-04 02:00:00",
-        "1999-04-04 03:00:00",
-        "1999-10-03 02:00:00",
-        "2000-04-02 03:00:00",
-        "2000-10-01 02:00:00",
-        "2001-04-01 03:00:00",
-        "2001-10-07 02:00:00",
-        "2002-04-07 03:00:00",
-        "2002-10-06 02:00:00",
-        "2003-04-06 03:00:00",
-        "2003-10-05 02:00:00",
-        "2004-04-04 03:00:00",
-        "2004-10-03 02:00:00",
-        "2005-04-03 03:00:00",
-        "2005-10-02 02:00:00",
+        "1982-10-31 02:00:00",
+        "1983-03-06 03:00:00",
+        "1983-10-30 02:00:00",
+        "1984-03-04 03:00:00",
+        "1984-10-28 02:00:00",
+        "1985-03-03 03:00:00",
+        "1985-10-27 02:00:00",
+        "1986-03-16 03:00:00",
+        "1986-10-19 02:00:00",
+        "1987-03-15 03:00:00",
+        "1987-10-25 02:00:00",
+        "1988-03-20 03:00:00",
+        "1988-10-30 02:00:00",
+        "1989-03-19 03:00:00",
+        "1989-10-29 02:00:00",
+        "1990-03-04 03:00:00",
+        "1990-10-28 02:00:00",
+        "1991-03-03 03:00:00",
+        "1991-10-27 02:00:00",
+        "1992-03-01 03:00:00",
+        "1992-10-25 02:00:00",
+        "1993-03-07 03:00:00",
+        "1993-10-31 02:00:00",
+        "1994-03-06 03:00:00",
+        "1994-10-30 02:00:00",
+        "1995-03-05 03:00:00",
+        "1995-10-29 02:00:00",
+        "1996-03-31 03:00:00",
+        "1996-10-27 02:00:00",
+        "1997-03-30 03:00:00",
+        "1997-10-26 02:00:00",
+        "1998-03-29 03:00:00",
+        "1998-10-25 02:00:00",
+        "1999-03-28 03:00:00",
+        "1999-10-31 02:00:00",
+        "2000-03-26 03:00:00",
+        "2000-08-27 02:00:00",
+        "2001-03-25 03:00:00",
+        "2001-10-28 02:00:00",
+        "2002-03-31 03:00:00",
+        "2002-10-27 02:00:00",
+        "2003-03-30 03:00:00",
+        "2003-10-26 02:00:00",
+        "2004-03-28 03:00:00",
+        "2004-10-31 02:00:00",
+        "2005-03-27 03:00:00",
+        "2005-10-30 02:00:00",
         "2006-04-02 03:00:00",
-        "2006-10-01 02:00:00",
-        "2007-04-01 03:00:00",
-        "2007-10-07 02:00:00",
+        "2006-10-29 02:00:00",
+        "2007-03-25 03:00:00",
+        "2007-10-28 02:00:00",
         "2008-04-06 03:00:00",
         "2008-10-05 02:00:00",
         "2009-04-05 03:00:00",
@@ -762,83 +753,79 @@ DST_CUTOFFS_Australia__Sydney = FastArray(
 
 DST_REVERSE_Australia__Sydney = FastArray(
     [
-        "1969-10-25 16:00:00",
-        "1970-04-04 16:00:00",
-        "1970-10-03 16:00:00",
-        "1971-04-03 16:00:00",
-        "1971-10-02 16:00:00",
-        "1972-04-01 16:00:00",
-        "1972-09-30 16:00:00",
-        "1973-03-31 16:00:00",
-        "1973-10-06 16:00:00",
-        "1974-04-06 16:00:00",
-        "1974-10-05 16:00:00",
-        "1975-04-05 16:00:00",
-        "1975-10-04 16:00:00",
-        "1976-04-03 16:00:00",
-        "1976-10-02 16:00:00",
-        "1977-04-02 16:00:00",
-        "1977-10-01 16:00:00",
-        "1978-04-01 16:00:00",
-        "1978-09-30 16:00:00",
-        "1979-03-31 16:00:00",
-        "1979-10-06 16:00:00",
-        "1980-04-05 16:00:00",
-        "1980-10-04 16:00:00",
-        "1981-04-04 16:00:00",
-        "1981-10-03 16:00:00",
+        "1971-10-30 16:00:00",
+        "1972-02-26 16:00:00",
+        "1972-10-28 16:00:00",
+        "1973-03-03 16:00:00",
+        "1973-10-27 16:00:00",
+        "1974-03-02 16:00:00",
+        "1974-10-26 16:00:00",
+        "1975-03-01 16:00:00",
+        "1975-10-25 16:00:00",
+        "1976-03-06 16:00:00",
+        "1976-10-30 16:00:00",
+        "1977-03-05 16:00:00",
+        "1977-10-29 16:00:00",
+        "1978-03-04 16:00:00",
+        "1978-10-28 16:00:00",
+        "1979-03-03 16:00:00",
+        "1979-10-27 16:00:00",
+        "1980-03-01 16:00:00",
+        "1980-10-25 16:00:00",
+        "1981-02-28 16:00:00",
+        "1981-10-24 16:00:00",
         "1982-04-03 16:00:00",
-        "1982-10-02 16:00:00",
-        "1983-04-02 16:00:00",
-        "1983-10-01 16:00:00",
-        "1984-03-31 16:00:00",
-        "1984-10-06 16:00:00",
-        "1985-04-06 16:00:00",
-        "1985-10-05 16:00:00",
-        "1986-04-05 16:00:00",
-        "1986-10-04 16:00:00",
-        "1987-04-04 16:00:00",
-        "1987-10-03 16:00:00",
-        "1988-04-02 16:00:00",
-        "1988-10-01 16:00:00",
-        "1989-04-01 16:00:00",
-        "1989-09-30 16:00:00",
-        "1990-03-31 16:00:00",
-        "1990-10-06 16:00:00",
-        "1991-04-06 16:00:00",
-        "1991-10-05 16:00:00",
-        "1992-04-04 16:00:00",
-        "1992-10-03 16:00:00",
-        "1993-04-03 16:00:00",
-        "1993-10-02 16:00:00",
-        "1994-04-02 16:00:00",
-        "1994-10-01 16:00:00",
-        "1995-04-01 16:00:00",
-        "1995-09-30 16:00:00",
-        "1996-04-06 16:00:00",
-        "1996-10-05 16:00:00",
-        "1997-04-05 16:00:00",
-        "1997-10-04 16:00:00",
-        "1998-04-04 16:00:00",
-        "1998-10-03 16:00:00",
-        "1999-04-03 16:00:00",
-        "1999-10-02 16:00:00",
-        "2000-04-01 16:00:00",
-        "2000-09-30 16:00:00",
-        "2001-03-31 16:00:00",
-        "2001-10-06 16:00:00",
-        "2002-04-06 16:00:00",
-        "2002-10-05 16:00:00",
-        "2003-04-05 16:00:00",
-        "2003-10-04 16:00:00",
-        "2004-04-03 16:00:00",
-        "2004-10-02 16:00:00",
-        "2005-04-02 16:00:00",
-        "2005-10-01 16:00:00",
+        "1982-10-30 16:00:00",
+        "1983-03-05 16:00:00",
+        "1983-10-29 16:00:00",
+        "1984-03-03 16:00:00",
+        "1984-10-27 16:00:00",
+        "1985-03-02 16:00:00",
+        "1985-10-26 16:00:00",
+        "1986-03-15 16:00:00",
+        "1986-10-18 16:00:00",
+        "1987-03-14 16:00:00",
+        "1987-10-24 16:00:00",
+        "1988-03-19 16:00:00",
+        "1988-10-29 16:00:00",
+        "1989-03-18 16:00:00",
+        "1989-10-28 16:00:00",
+        "1990-03-03 16:00:00",
+        "1990-10-27 16:00:00",
+        "1991-03-02 16:00:00",
+        "1991-10-26 16:00:00",
+        "1992-02-29 16:00:00",
+        "1992-10-24 16:00:00",
+        "1993-03-06 16:00:00",
+        "1993-10-30 16:00:00",
+        "1994-03-05 16:00:00",
+        "1994-10-29 16:00:00",
+        "1995-03-04 16:00:00",
+        "1995-10-28 16:00:00",
+        "1996-03-30 16:00:00",
+        "1996-10-26 16:00:00",
+        "1997-03-29 16:00:00",
+        "1997-10-25 16:00:00",
+        "1998-03-28 16:00:00",
+        "1998-10-24 16:00:00",
+        "1999-03-27 16:00:00",
+        "1999-10-30 16:00:00",
+        "2000-03-25 16:00:00",
+        "2000-08-26 16:00:00",
+        "2001-03-24 16:00:00",
+        "2001-10-27 16:00:00",
+        "2002-03-30 16:00:00",
+        "2002-10-26 16:00:00",
+        "2003-03-29 16:00:00",
+        "2003-10-25 16:00:00",
+        "2004-03-27 16:00:00",
+        "2004-10-30 16:00:00",
+        "2005-03-26 16:00:00",
+        "2005-10-29 16:00:00",
         "2006-04-01 16:00:00",
-        "2006-09-30 16:00:00",
-        "2007-03-31 16:00:00",
-        "2007-10-06 16:00:00",
+        "2006-10-28 16:00:00",
+        "2007-03-24 16:00:00",
+        "2007-10-27 16:00:00",
         "2008-04-05 16:00:00",
         "2008-10-04 16:00:00",
         "2009-04-04 16:00:00",
-- 
2.43.0


From 3fc817b5f65fceeb24adbb76f5e25d25a0da5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:06 +0000
Subject: [PATCH 55/78] fix: a TimeSpan made from an integer array keeps its
 invalids

---
 riptable/rt_datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index a17d0b5..2cc1557 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -7161,7 +7161,8 @@ class TimeSpan(TimeSpanBase, DateTimeBase):
             cls.ReduceFuncs = True
 
         # handle all others as numeric
-        instance = values.astype(np.float64, copy=False)
+        # (an astype that has to convert also carries over the integer invalid)
+        instance = values if values.dtype == np.float64 else values.view(FastArray).astype(np.float64)
         if unit is not None:
             instance = cls._unit_to_nano_span(instance, unit)
 
-- 
2.43.0


From 5ab5f0589c95246981642537851ef3c7678c1f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:12 +0000
Subject: [PATCH 56/78] fix: a Date or DateTimeNano comparison is false where
 the other operand is invalid

---
 riptable/rt_datetime.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 2cc1557..fd260be 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -825,10 +825,13 @@ class TimeStampBase:
         """
         func = getattr(caller, funcname)
         result = func(other)
+        inv_mask = self.isnan()
+        if isinstance(other, (Date, DateTimeNano, DateTimeNanoScalar)):
+            inv_mask = inv_mask | other.isnan()
         if funcname == "__ne__":
-            result += self.isnan()
+            result += inv_mask
         else:
-            result *= self.isnotnan()
+            result *= ~inv_mask
         return result
 
 
@@ -2250,10 +2253,6 @@ class Date(DateBase, TimeStampBase):
             # fix the timezone to match the display of the DateTimeNano
             caller = DateTimeNano(self._fa * NANOS_PER_DAY, from_tz=to_tz, to_tz=to_tz)
 
-        # looks weird now, saving explicit branchesfor if any forbidden types appear
-        elif isinstance(other, Date):
-            other = other._fa
-
         elif isinstance(other, (str, bytes)):
             other = Date(other)
 
-- 
2.43.0


From fee219fb9ae008435956b1487bc8e822615929ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:12 +0000
Subject: [PATCH 57/78] fix: a Date compared with a DateTimeNanoScalar compares
 the instants

---
 riptable/rt_datetime.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index fd260be..4a21454 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -2247,8 +2247,7 @@ class Date(DateBase, TimeStampBase):
         if isinstance(other, (DateSpan, TimeSpan, DateSpanScalar, TimeSpanScalar)):
             raise TypeError(f"Cannot perform {funcname} comparison operation between {type(self)} and {type(other)}.")
 
-        elif isinstance(other, DateTimeNano):
-            caller = self._fa * NANOS_PER_DAY
+        elif isinstance(other, (DateTimeNano, DateTimeNanoScalar)):
             to_tz = other._timezone._to_tz
             # fix the timezone to match the display of the DateTimeNano
             caller = DateTimeNano(self._fa * NANOS_PER_DAY, from_tz=to_tz, to_tz=to_tz)
-- 
2.43.0


From 3f4425a85c081e93c8a849ddb9c91593e284ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:12 +0000
Subject: [PATCH 58/78] fix: TimeSpan - DateSpan subtracts the days, not that
 many nanoseconds

---
 riptable/rt_datetime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 4a21454..bdf680c 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6790,7 +6790,11 @@ class TimeSpanBase:
     def __sub__(self, value):
         if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
             return value.__rsub__(self)
-        return self._fix_binary_ops(value, "__sub__")
+        other_inv_mask = None
+        if isinstance(value, DateSpan):
+            other_inv_mask = isnan(value)
+            value = value._fa * NANOS_PER_DAY
+        return self._fix_binary_ops(value, "__sub__", other_inv_mask=other_inv_mask)
 
     # -------------------------------------------------------------
     def __rsub__(self, value):
-- 
2.43.0


From 346762891d396d7cd6d3e0a5f17478f1bbc398d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:12 +0000
Subject: [PATCH 59/78] fix: TimeSpan plus a one-row invalid DateSpan is
 invalid

---
 riptable/rt_datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index bdf680c..e18bb71 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6875,8 +6875,8 @@ class TimeSpanBase:
             else:
                 # possible nan fill
                 if len(other_inv_mask) == 1:
-                    if isnan(other_inv_mask)[0]:
-                        result = TimeSpan(full(len(self), np.nan, dtype=np.float64))
+                    if other_inv_mask[0]:
+                        result[:] = np.nan
                 else:
                     result[other_inv_mask] = np.nan
             result = TimeSpan(result)
-- 
2.43.0


From d8046396cbb9c975e708b9a3772ac02fe662842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:12 +0000
Subject: [PATCH 60/78] fix: DateSpan arithmetic with TimeSpan and DateTimeNano
 gives the result type's invalid and keeps the displayed timezone

---
 riptable/rt_datetime.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e18bb71..d15ca55 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1038,6 +1038,7 @@ class DateBase(FastArray):
         caller = self._fa
 
         # check if operand has nano precision, set invalid, return type accordingly
+        operand = value
         value, other_inv_mask, return_type, caller = self._check_mathops_nano(
             funcname, value, other_inv_mask, return_type, caller
         )
@@ -1054,7 +1055,7 @@ class DateBase(FastArray):
             return other_inv_mask
 
         # apply invalid mask(s) and wrap result in final return type
-        result = self._build_mathops_result(value, result, inv_mask, other_inv_mask, return_type)
+        result = self._build_mathops_result(operand, result, inv_mask, other_inv_mask, return_type)
         return result
 
     # ------------------------------------------------------------
@@ -1067,8 +1068,16 @@ class DateBase(FastArray):
         # print('other_inv_mask',other_inv_mask)
         # print('return type',return_type)
 
+        # the invalid that belongs to the return type
+        if return_type == TimeSpan:
+            fillval = np.nan
+        elif return_type == DateTimeNano:
+            fillval = DateTimeBase.NAN_TIME
+        else:
+            fillval = return_type.NAN_DATE
+
         result = _apply_inv_mask(
-            self, result, fillval=self.NAN_DATE, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask
+            self, result, fillval=fillval, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask
         )
 
         if not isinstance(result, return_type):
-- 
2.43.0


From 8a9c31588898ca6d52cd59b43921ff7f43b953c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:29 +0000
Subject: [PATCH 61/78] fix: a TimeSpan plus a DateTimeNanoScalar is the
 moment, not a TimeSpan

---
 riptable/rt_datetime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index d15ca55..a494e05 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6772,15 +6772,15 @@ class TimeSpanBase:
     def __add__(self, value):
         other_inv_mask = None
 
+        # DateTimeNano / Date will fix up this operation
+        if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date)):
+            return value.__add__(self)
+
         # TimeSpan add
         if not isinstance(value, np.ndarray):
             value = FastArray(value).astype(np.float64)
         else:
-            # DateTimeNano / Date will fix up this operation
-            if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
-                return value.__add__(self)
-
-            elif isinstance(value, (DateSpan, DateSpanScalar)):
+            if isinstance(value, (DateSpan, DateSpanScalar)):
                 other_inv_mask = isnan(value)
                 value = value._fa * NANOS_PER_DAY
 
-- 
2.43.0


From 7109945e93e54d98a8fdcd3d2e5fd46ab1ba0a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:13 +0000
Subject: [PATCH 62/78] fix: Date.diff and DateTimeNano.diff are invalid where
 either moment is

---
 riptable/rt_datetime.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index a494e05..e278b63 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1403,8 +1403,7 @@ class Date(DateBase, TimeStampBase):
         -------
         DateSpan
         """
-        result = self._fa.diff(periods=periods)
-        return DateSpan(result)
+        return self - self.shift(periods)
 
     # ------------------------------------------------------------
     @classmethod
@@ -5733,7 +5732,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         >>> dtn.diff(periods=6)
         TimeSpan(['Inv', 'Inv', 'Inv', 'Inv', 'Inv', 'Inv'])
         """
-        return TimeSpan(self._fa.diff(periods=periods).astype(np.float64))
+        return self - self.shift(periods)
 
     # -------------------------------------------------------------
     def __radd__(self, other):
-- 
2.43.0


From 8250677191e7586c955614b3e0c291dfe2a63c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:13 +0000
Subject: [PATCH 63/78] fix: a Date or DateSpan with a DateTimeNanoScalar
 treats it as a moment, not as a number of days

---
 riptable/rt_datetime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e278b63..5c89519 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -2333,7 +2333,7 @@ class Date(DateBase, TimeStampBase):
             result = func(functup, op, 0)
             return DateSpan(result)
 
-        elif isinstance(value, DateTimeNano):
+        elif isinstance(value, (DateTimeNano, DateTimeNanoScalar)):
             caller = DateTimeNano(self._fa * NANOS_PER_DAY, from_tz=value._timezone._from_tz)
             return caller - value
 
@@ -2539,7 +2539,7 @@ class Date(DateBase, TimeStampBase):
             caller = self._fa * NANOS_PER_DAY
             value = value._fa.astype(np.int64)
 
-        elif isinstance(value, DateTimeNano):
+        elif isinstance(value, (DateTimeNano, DateTimeNanoScalar)):
             if funcname in ("__add__", "__iadd__", "__isub__"):
                 raise TypeError(f"Cannot perform addition between Date and DateTimeNano")
 
@@ -2944,13 +2944,13 @@ class DateSpan(DateBase):
             other_inv_mask = value.isnan()
             caller = self._fa * NANOS_PER_DAY
 
-        elif isinstance(value, DateTimeNano):
+        elif isinstance(value, (DateTimeNano, DateTimeNanoScalar)):
             if funcname in ("__sub__", "__isub__"):
                 raise TypeError(f"Cannot perform {funcname} operation between DateSpan and DateTimeNano")
             return_type = DateTimeNano
-            other_inv_mask = value.isnan()
+            other_inv_mask = isnan(value)
             caller = self._fa * NANOS_PER_DAY
-            value = value._fa
+            value = value._fa if isinstance(value, DateTimeNano) else np.int64(value)
 
         return value, other_inv_mask, return_type, caller
 
-- 
2.43.0


From ab3b5102e733b079f5cfc65237f7a556b396303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:13 +0000
Subject: [PATCH 64/78] fix: DateTimeNano from a TimeSpan and a start_date is
 invalid where either is

---
 riptable/rt_datetime.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 5c89519..985c872 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -4468,6 +4468,8 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         if from_matlab:
             instance = cls._convert_matlab_days(arr, _timezone)
         else:
+            # the result is invalid where the time or the start date is
+            start_inv_masks = []
             if start_date is not None:
                 if not isinstance(arr, np.ndarray):
                     arr = FastArray(arr)
@@ -4476,6 +4478,11 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
                 if arr.dtype.char in "US":
                     arr = TimeSpan(arr)
 
+                if isinstance(arr, TimeSpan):
+                    start_inv_masks.append(arr.isnan())
+                if isinstance(start_date, Date):
+                    start_inv_masks.append(start_date.isnan())
+
                 # interpret as start date in nanoseconds
                 if isinstance(start_date, (str, bytes)):
                     start_date = FastArray(start_date)
@@ -4551,6 +4558,9 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
 
                 # match stored utc nano to desired display
                 instance = _timezone.to_utc(instance)
+
+                for inv_mask in start_inv_masks:
+                    instance[np.broadcast_to(inv_mask, instance.shape)] = cls.NAN_TIME
             else:
                 raise TypeError(f"Cannot initialize DateTimeNano with type {type(arr)}, must be list or array.")
 
-- 
2.43.0


From 4b1d192c4f88298e918bd729632bd4feb18744fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:25 +0000
Subject: [PATCH 65/78] fix: copying a Dataset that has a sorted view raises
 AttributeError

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index ebfce3b..6e863f8 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -711,7 +711,7 @@ class Dataset(Struct):
                 new_sortlist = [_k for _k in self._col_sortlist if _k in ds]
                 if len(new_sortlist) > 0:
                     ds._col_sortlist = new_sortlist
-                    ds._sort_ascending = self.sort_ascending
+                    ds._sort_ascending = self._sort_ascending
             else:
                 new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
                 if len(new_sort) > 0:
-- 
2.43.0


From 235707b3e21a429a5e1dcf9367be5f14f975bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:25 +0000
Subject: [PATCH 66/78] fix: a copy of a Dataset with a sorted view keeps each
 key's direction

---
 riptable/rt_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 6e863f8..a7834bc 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -713,10 +713,12 @@ class Dataset(Struct):
                     ds._col_sortlist = new_sortlist
                     ds._sort_ascending = self._sort_ascending
             else:
-                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
+                # the directions are stored last key first, as an array (see _sort_values)
+                new_sort = [(_k, bool(_v)) for _k, _v in zip(self._col_sortlist, self._sort_ascending[::-1]) if _k in ds]
                 if len(new_sort) > 0:
                     ds._col_sortlist = [x[0] for x in new_sort]
-                    ds._sort_ascending = [x[1] for x in new_sort]
+                    ascending = [x[1] for x in reversed(new_sort)]
+                    ds._sort_ascending = ascending[0] if len(ascending) == 1 else TypeRegister.FastArray(ascending)
 
             ds._sort_display = self._sort_display
 
-- 
2.43.0


From 5f5289e7da91d021ac12fc046f807ec69d21f68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:09 +0000
Subject: [PATCH 67/78] fix: stack_rows of a dict with more keys than rows
 overflows the Categorical's codes

---
 riptable/rt_hstack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index c4cb7a7..c27aa92 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -195,7 +195,7 @@ def hstack_any(
                 f"Final lengths do not match.  The hstack resulted in length {total_len} but counted a total length of {lengths[-1]}."
             )
 
-        ikey = empty((total_len,), dtype=int_dtype_from_len(total_len))
+        ikey = empty((total_len,), dtype=int_dtype_from_len(max(total_len, dictlen)))
 
         startpos = 0
         for i in range(len(lengths)):
-- 
2.43.0


From fa2a456c54e5eebe3e36ec549f58aed03f49d3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:09 +0000
Subject: [PATCH 68/78] fix: concat_structs stacks two-dimensional arrays side
 by side instead of by rows

---
 riptable/rt_hstack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index c27aa92..81c463a 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -374,6 +374,9 @@ def _hstack_struct(struct_list, destroy: bool = False):
 
     # hstack lists of the same type - rt.hstack will route these to the correct routine
     for typename, typedict in alldicts.items():
+        # arrays were stacked above, according to their dimensions
+        if typename == "Array":
+            continue
         for name, itemlist in typedict.items():
             final_dict[name] = hstack(itemlist)
 
-- 
2.43.0


From c8652ef01c0c21335045c86ed0080cdbbcf49b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:09 +0000
Subject: [PATCH 69/78] fix: concat_rows of two-dimensional columns of
 different dtypes keeps their invalids

---
 riptable/rt_hstack.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index 81c463a..d0a32b0 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -538,6 +538,11 @@ def _hstack_dataset(ds_list: Union[list, tuple], destroy: bool = False):
         else:
             # NOTE: if riptable takes over vstack, remove the dtype fixup that happens in _possibly_add_concat_gap
             stackfunc = np.vstack
+            if len(t) > 1:
+                # np.vstack does not know about invalids: convert to the common dtype first
+                common = np.result_type(*t)
+                if common.num <= 13:
+                    column_list = [c.astype(common) for c in column_list]
 
         # add to final dataset dict
         newcols[name] = stackfunc(column_list)
-- 
2.43.0


From 19c61d61672d3c39501b3654c750f38643a2ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:09 +0000
Subject: [PATCH 70/78] fix: hstack of a one-row strided view raises, or loses
 invalids and the requested dtype

---
 riptable/rt_hstack.py | 10 +++++-----
 riptable/rt_numpy.py  | 10 +++++++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index d0a32b0..7620be4 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -9,7 +9,7 @@ import riptide_cpp as rc
 
 from .rt_enum import CategoryMode, NumpyCharTypes, TypeRegister, int_dtype_from_len
 from .rt_grouping import hstack_groupings, merge_cats
-from .rt_numpy import arange, empty, hstack
+from .rt_numpy import _fix_one_row_strides, arange, empty, hstack
 
 
 def hstack_any(
@@ -666,7 +666,7 @@ def _hstack_categorical(cats: list, verbose: bool = False, destroy: bool = False
     # todo: see _multistack_categoricals int rt_sds.py
     # stack indices
     # this will stack the fastarrays
-    indices = rc.HStack(cats)
+    indices = rc.HStack(_fix_one_row_strides(cats))
     idx_cutoffs = TypeRegister.FastArray([len(c._fa) for c in cats], dtype=np.int64).cumsum()
 
     # ------------------------- start rebuild here
@@ -756,7 +756,7 @@ def _hstack_datetimenano(dtlist, destroy=False):
         return dtlist
 
     # hstack int64 utc nano arrays
-    arr = rc.HStack(dtlist)
+    arr = rc.HStack(_fix_one_row_strides(dtlist))
 
     # reconstruct with first item
     return TypeRegister.DateTimeNano.newclassfrominstance(arr, dtlist[0])
@@ -769,7 +769,7 @@ def _hstack_timespan(tspans, destroy=False):
     This is a very simple class, rewrap the hstack result in class.
     NOTE: destroy ignored
     """
-    ts = rc.HStack(tspans)
+    ts = rc.HStack(_fix_one_row_strides(tspans))
     return TypeRegister.TimeSpan(ts)
 
 
@@ -816,7 +816,7 @@ def _hstack_date_internal(dates, subclass=TypeRegister.Date):
     if len(dates) == 1:
         return dates
 
-    stacked = rc.HStack(dates)
+    stacked = rc.HStack(_fix_one_row_strides(dates))
     return subclass.newclassfrominstance(stacked, dates[0])
 
 
diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index d2bd243..b04407c 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5684,13 +5684,21 @@ def hstack(tup: Sequence[np.ndarray], dtype: Optional[Union[str, type, np.dtype]
             dtypenum = np.dtype(dtype).num
 
     try:
-        hstack_result = rc.HStack(tup, dtypenum)
+        hstack_result = rc.HStack(_fix_one_row_strides(tup), dtypenum)
     except:
         hstack_result = np.hstack(tup)
 
     return hstack_result.view(single_arr_type)
 
 
+# ------------------------------------------------------------
+def _fix_one_row_strides(arrays):
+    # a one-row view may have any stride, which rc.HStack rejects
+    return [
+        a.copy() if isinstance(a, np.ndarray) and a.shape == (1,) and a.strides != (a.itemsize,) else a for a in arrays
+    ]
+
+
 # ------------------------------------------------------------
 def asanyarray(a, dtype=None, order=None):
     # note will get hooked directly
-- 
2.43.0


From bee4367da9a8ad4538ec8d8b45efe708924c365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 71/78] fix: col_str_replace drops a column when two names
 become the same

---
 riptable/rt_itemcontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 7cf5fe1..607f872 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -561,7 +561,7 @@ class ItemContainer:
             if r != item:
                 replace_count += 1
                 # prevent name conflict from overwriting existing column
-                if r in self._items:
+                if r in self._items or r in new_names:
                     raise ValueError(f"Item {r} already existed, cannot make replacement in item name {item}.")
             new_names.append(r)
 
-- 
2.43.0


From 6c5b293fc737a5358717073a19996af62fd14b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 72/78] fix: col_str_replace on a Dataset with a sorted view
 raises after renaming

---
 riptable/rt_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index ab0537f..63f8d57 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3789,7 +3789,7 @@ class Struct:
         replaced = self._all_items.item_str_replace(old, new, maxr=max)
         if replaced and self._col_sortlist is not None:
             # fix sorts
-            for i, name in self._col_sortlist:
+            for i, name in enumerate(self._col_sortlist):
                 r = name.replace(old, new, max)
                 if r != name:
                     self._col_sortlist[i] = r
-- 
2.43.0


From a6669679589787a8077ccfeb76c8e09e7a08a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 73/78] fix: sort_view keeps its own list of keys, so that
 renaming a column does not change the caller's

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index a7834bc..b0246df 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -4134,7 +4134,7 @@ class Dataset(Struct):
         # if drops into here, sort_view was called
 
         self._sort_ascending = ascending
-        self._col_sortlist = bylist
+        self._col_sortlist = list(bylist)
         self.sorts_on()
 
         # TJD New code.. once display, turn sorts_off
-- 
2.43.0


From bce75157e3fef80e8eb2cf0c3c74b674a959c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 74/78] fix: labels and footers set on a selection of a Dataset
 do not change the original's

---
 riptable/rt_itemcontainer.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 607f872..c4b1580 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -183,6 +183,17 @@ class ItemContainer:
             arr.set_name(name)
             v[0] = arr
 
+    # -----------------------------------------
+    @staticmethod
+    def _copy_item(item):
+        """
+        Copy of an item whose attributes (labels, footers) are its own.
+        """
+        item = item.copy()
+        if item[1] is not None:
+            item[1] = item[1].copy()
+        return item
+
     # -----------------------------------------
     def copy(self, cols=None, deep=False):
         """
@@ -191,13 +202,8 @@ class ItemContainer:
         """
 
         newcontainer = ItemContainer()
-        if cols is None:
-            newcontainer._items = self._items.copy()
-            for k, v in newcontainer._items.items():
-                newcontainer._items[k] = v.copy()
-        else:
-            for k in cols:
-                newcontainer._items[k] = self._items[k].copy()
+        for k in self._items if cols is None else cols:
+            newcontainer._items[k] = self._copy_item(self._items[k])
         return newcontainer
 
     # -----------------------------------------
@@ -212,13 +218,13 @@ class ItemContainer:
         if cols is None:
             for k, v in self._items.items():
                 # tuple copy
-                v = v.copy()
+                v = self._copy_item(v)
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
         else:
             for k in cols:
                 # tuple copy
-                v = self._items[k].copy()
+                v = self._copy_item(self._items[k])
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
 
-- 
2.43.0


From f16374b4c10e783b02f923dd863fad363bfa353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:52 +0000
Subject: [PATCH 75/78] fix: col_add_prefix, col_add_suffix and col_str_replace
 respect a locked object

---
 riptable/rt_struct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 63f8d57..4ccd80d 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3368,6 +3368,8 @@ class Struct:
         3        0.63        0.22        0.85        0.60        0.91
         4        0.46        0.70        0.02        0.49        0.34
         """
+        if self.is_locked():
+            raise AttributeError("Not allowed to call col_add_prefix() on locked object.")
         sorts = self._col_sortlist
 
         # clear item dict first so if prefix + oldname exists, data won't be overwritten
@@ -3408,6 +3410,8 @@ class Struct:
         3        0.63        0.22        0.85        0.60        0.91
         4        0.46        0.70        0.02        0.49        0.34
         """
+        if self.is_locked():
+            raise AttributeError("Not allowed to call col_add_suffix() on locked object.")
         sorts = self._col_sortlist
 
         # clear item dict first so if oldname + suffix exists, data won't be overwritten
@@ -3785,6 +3789,8 @@ class Struct:
         >>> ds = rt.Dataset({'a': rt.arange(5), 'A': rt.arange(5)})
         ValueError: Item A already existed, cannot make replacement in item.
         """
+        if self.is_locked():
+            raise AttributeError("Not allowed to call col_str_replace() on locked object.")
         # will return true if any column names changed
         replaced = self._all_items.item_str_replace(old, new, maxr=max)
         if replaced and self._col_sortlist is not None:
-- 
2.43.0


From 8f154459a5fef37a340ad05d2ea92a340a14a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:03 +0000
Subject: [PATCH 76/78] fix: a row-wise reduction of a Dataset does not change
 the dtype of its columns

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index b0246df..2bab52d 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6557,7 +6557,7 @@ class Dataset(Struct):
         if axis == 1:
             if fill_value is None:
                 # new fast path
-                return func(self.imatrix_make(), axis=1, **kwargs)
+                return func(self.imatrix_make(inplace=False), axis=1, **kwargs)
 
             if not any(noncomp):
                 # does not respect noncomputable cols.
-- 
2.43.0


From da03c3441cd9c0a4a1d5387eb46ee74d80694a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:03 +0000
Subject: [PATCH 77/78] fix: Dataset.tail(0) gives no rows

---
 riptable/rt_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 2bab52d..90e5d6e 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3045,6 +3045,8 @@ class Dataset(Struct):
             self._nrows = 0
             return self[:0, :]
         rows = min(self._nrows, n)
+        if rows == 0:
+            return self[:0, :]
         return self[-rows:, :]
 
     def dhead(self, n: int = 0) -> None:
-- 
2.43.0


From b89f08c2f1be99452fe09f89d4a400d31454ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:27 +0000
Subject: [PATCH 78/78] fix: row-wise min and max of a Dataset keep integer
 invalids when column dtypes differ

---
 riptable/rt_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 90e5d6e..4d2858b 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6566,7 +6566,9 @@ class Dataset(Struct):
                 # 2.74 ms ± 6.18 µs per loop (mean ± std. dev. of 7 runs, 100 loops each)
                 # return np.array([func(np.array(self[_r, :].tolist()), **kwargs) for _r in range(self.get_nrows())])
                 # 267 µs ± 2 µs per loop (mean ± std. dev. of 7 runs, 1000 loops each)
-                return FastArray([func(_r, **kwargs) for _r in self.asrows(as_type="array")])
+                # vstack (unlike np.array of the row's items) keeps integer invalids when the columns' dtypes differ
+                rows = np.ascontiguousarray(vstack([*self.values()], order="F"))
+                return FastArray([func(_r, **kwargs) for _r in rows])
 
             # respects noncomputable cols.
             # 448 µs ± 1.7 µs per loop (mean ± std. dev. of 7 runs, 1000 loops each)
-- 
2.43.0

