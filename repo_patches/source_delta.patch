From 91bd312a1720bae8b5e3a036d9c20937129ae2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:29 +0000
Subject: [PATCH 001/152] fix: read datetime64/timedelta64 scalars as signed
 integers

Times before the epoch and negative time differences were reinterpreted as
uint64, so getting one item out of an array raised OverflowError.
---
 src/python/content.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/content.cpp b/src/python/content.cpp
index dc4da47..5da59d3 100644
--- a/src/python/content.cpp
+++ b/src/python/content.cpp
@@ -84,11 +84,11 @@ box(const std::shared_ptr<ak::Content>& content) {
                    reinterpret_cast<double*>(raw->data())));
         case ak::util::dtype::datetime64:
           return py::module::import("numpy").attr("datetime64")(
-                   reinterpret_cast<uint64_t*>(raw->data()),
+                   reinterpret_cast<int64_t*>(raw->data()),
                    ak::util::format_to_units(raw->format()));
         case ak::util::dtype::timedelta64:
           return py::module::import("numpy").attr("timedelta64")(
-                   reinterpret_cast<uint64_t*>(raw->data()),
+                   reinterpret_cast<int64_t*>(raw->data()),
                    ak::util::format_to_units(raw->format()));
         default:
           if (raw->ptr_lib() == ak::kernel::lib::cuda) {
-- 
2.43.0


From cfd5fc324ab17019785830eaec5a31674bf3c555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:43 +0000
Subject: [PATCH 002/152] fix: to_list of a multidimensional datetime array
 returns nested lists

ak.to_list returned a list of NumPy arrays for datetime64/timedelta64 data with
more than one dimension.
---
 src/awkward/operations/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index c1f2913..acbeb75 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -968,7 +968,9 @@ def to_list(array):
         return [to_list(x) for x in array.snapshot()]
 
     elif isinstance(array, ak.layout.NumpyArray):
-        if array.format.upper().startswith("M"):
+        if array.format.upper().startswith("M") and array.ndim > 1:
+            return [to_list(x) for x in array]
+        elif array.format.upper().startswith("M"):
             return (
                 [
                     x
-- 
2.43.0


From 6fd387ccb57b0d86f96f7075f4f6f56ff5c3cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:24 +0000
Subject: [PATCH 003/152] fix: merging a RecordArray shorter than its fields
 drops the unreachable tail

---
 src/libawkward/array/RecordArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 571f0d4..4eae122 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1274,7 +1274,7 @@ namespace awkward {
     std::vector<ContentPtrVec> for_each_field;
     for (auto field : contents_) {
       ContentPtr trimmed = field.get()->getitem_range_nowrap(0, length_);
-      for_each_field.push_back(ContentPtrVec({ field }));
+      for_each_field.push_back(ContentPtrVec({ trimmed }));
     }
 
     if (istuple()) {
-- 
2.43.0


From 3d3f865b0db0b7d9bb566137d1c747c673b0c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:24 +0000
Subject: [PATCH 004/152] fix: slicing into a non-contiguous multidimensional
 NumpyArray below another node

---
 src/libawkward/array/NumpyArray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 1dc0ada..a175de9 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -1433,6 +1433,9 @@ namespace awkward {
   NumpyArray::getitem_next(const SliceItemPtr& head,
                            const Slice& tail,
                            const Index64& advanced) const {
+    if (!iscontiguous()) {
+      return contiguous().getitem_next(head, tail, advanced);
+    }
     Index64 carry(shape_[0]);
     struct Error err = kernel::carry_arange<int64_t>(
       kernel::lib::cpu,   // DERIVE
-- 
2.43.0


From bd4d12249afc44e55ad58fcb8ee3028e4bbae3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:42 +0000
Subject: [PATCH 005/152] fix: ellipsis slices of a partitioned array that
 reach the partitioned axis

---
 src/awkward/partition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index c1293ca..7a636e8 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -283,6 +283,9 @@ class PartitionedArray(object):
                 )
 
             elif head is Ellipsis:
+                if len(tail) >= first(self).minmax_depth[0]:
+                    # the ellipsis may be empty: tail can reach the partitioned axis
+                    return self.toContent()[(head,) + tail]
                 return IrregularlyPartitionedArray(
                     [x[(head,) + tail] for x in self.partitions]
                 )
-- 
2.43.0


From 7ef4ef7e00293a26a83063c6c78d7e4c1cd271ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:42 +0000
Subject: [PATCH 006/152] fix: an empty range of a partitioned array keeps its
 type

---
 src/libawkward/partition/PartitionedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/partition/PartitionedArray.cpp b/src/libawkward/partition/PartitionedArray.cpp
index b1875e9..e3456cd 100644
--- a/src/libawkward/partition/PartitionedArray.cpp
+++ b/src/libawkward/partition/PartitionedArray.cpp
@@ -254,7 +254,7 @@ namespace awkward {
     }
 
     if (partitions.empty()) {
-      partitions.push_back(partitions_[0].get()->getitem_nothing());
+      partitions.push_back(partitions_[0].get()->getitem_range_nowrap(0, 0));
       stops.push_back(0);
     }
     return std::make_shared<IrregularlyPartitionedArray>(partitions, stops);
-- 
2.43.0


From 53f4054bc7db42767d721c377ace021bf7560629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:53 +0000
Subject: [PATCH 007/152] fix: an empty integer array in a slice keeps the
 number of lists

---
 include/awkward/Content.h                |  3 ++-
 src/libawkward/Content.cpp               | 31 ++++++++++--------------
 src/libawkward/array/ListArray.cpp       |  2 +-
 src/libawkward/array/ListOffsetArray.cpp |  2 +-
 src/libawkward/array/RegularArray.cpp    |  2 +-
 5 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/include/awkward/Content.h b/include/awkward/Content.h
index 0786514..1e0ca2c 100644
--- a/include/awkward/Content.h
+++ b/include/awkward/Content.h
@@ -1398,7 +1398,8 @@ namespace awkward {
     /// {@link SliceArrayOf#shape SliceArray::shape}.
     const ContentPtr
       getitem_next_array_wrap(const ContentPtr& outcontent,
-                              const std::vector<int64_t>& shape) const;
+                              const std::vector<int64_t>& shape,
+                              int64_t outer_length) const;
 
     /// @brief Internal function to convert #parameters into a string fragment
     /// for #tostring.
diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 39a6e99..effe39b 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1870,27 +1870,22 @@ namespace awkward {
 
   const ContentPtr
   Content::getitem_next_array_wrap(const ContentPtr& outcontent,
-                                   const std::vector<int64_t>& shape) const {
-    int64_t length = 0;
-    if (shape.size() >= 2) {
-      length = (int64_t)shape[shape.size() - 2];
-    }
-    ContentPtr out =
-      std::make_shared<RegularArray>(Identities::none(),
-                                     util::Parameters(),
-                                     outcontent,
-                                     (int64_t)shape[shape.size() - 1],
-                                     length);
-    for (int64_t i = (int64_t)shape.size() - 2;  i >= 0;  i--) {
-      int64_t length = 0;
-      if (i > 0) {
-        length = (int64_t)shape[(size_t)(i - 1)];
-      }
+                                   const std::vector<int64_t>& shape,
+                                   int64_t outer_length) const {
+    // lengths are explicit because a dimension of size zero can't imply them
+    std::vector<int64_t> lengths;
+    int64_t length = outer_length;
+    for (auto size : shape) {
+      lengths.push_back(length);
+      length *= size;
+    }
+    ContentPtr out = outcontent;
+    for (int64_t i = (int64_t)shape.size() - 1;  i >= 0;  i--) {
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
-                                           (int64_t)shape[(size_t)i],
-                                           length);
+                                           shape[(size_t)i],
+                                           lengths[(size_t)i]);
     }
     return out;
   }
diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 76ad0fd..31ec3da 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1737,7 +1737,7 @@ namespace awkward {
           nextcontent.get()->getitem_next(nexthead,
                                           nexttail,
                                           nextadvanced),
-          array.shape());
+          array.shape(), lenstarts);
       }
       else {
         return nextcontent.get()->getitem_next(nexthead,
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 79216dc..635a8cb 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -2228,7 +2228,7 @@ namespace awkward {
                  nextcontent.get()->getitem_next(nexthead,
                                                  nexttail,
                                                  nextadvanced),
-                 array.shape());
+                 array.shape(), lenstarts);
       }
       else {
         return nextcontent.get()->getitem_next(nexthead,
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 79080b0..3a84f1d 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1485,7 +1485,7 @@ namespace awkward {
                  nextcontent.get()->getitem_next(nexthead,
                                                  nexttail,
                                                  nextadvanced),
-                 array.shape());
+                 array.shape(), len);
       }
       else {
         return nextcontent.get()->getitem_next(nexthead,
-- 
2.43.0


From 695ccfc85b25aa9fa6c2de4004a5edc80e6477af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:31 +0000
Subject: [PATCH 008/152] fix: paired integer-array indexes stay aligned across
 missing lists

---
 src/libawkward/array/ByteMaskedArray.cpp | 16 +++++++++++++++-
 src/libawkward/array/IndexedArray.cpp    | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index 2624678..904cb4b 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -721,7 +721,21 @@ namespace awkward {
 
       ContentPtr next = content_.get()->carry(nextcarry, true);
 
-      ContentPtr out = next.get()->getitem_next(head, tail, advanced);
+      // keep any advanced index aligned with the non-missing elements
+      bool project = !advanced.is_empty_advanced()  &&  numnull != 0;
+      Index64 projected(project ? nextcarry.length() : 0);
+      if (project) {
+        int64_t k = 0;
+        for (int64_t i = 0;  i < outindex.length();  i++) {
+          if (outindex.getitem_at_nowrap(i) >= 0) {
+            projected.setitem_at_nowrap(k, advanced.getitem_at_nowrap(i));
+            k++;
+          }
+        }
+      }
+      ContentPtr out = next.get()->getitem_next(head,
+                                                tail,
+                                                project ? projected : advanced);
       IndexedOptionArray64 out2(identities_, parameters_, outindex, out);
       return out2.simplify_optiontype();
     }
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index b8594a9..734d1e4 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1390,7 +1390,21 @@ namespace awkward {
         IndexOf<T> outindex = pair.second;
 
         ContentPtr next = content_.get()->carry(nextcarry, true);
-        ContentPtr out = next.get()->getitem_next(head, tail, advanced);
+        // keep any advanced index aligned with the non-missing elements
+        bool project = !advanced.is_empty_advanced()  &&  numnull != 0;
+        Index64 projected(project ? nextcarry.length() : 0);
+        if (project) {
+          int64_t k = 0;
+          for (int64_t i = 0;  i < outindex.length();  i++) {
+            if (outindex.getitem_at_nowrap(i) >= 0) {
+              projected.setitem_at_nowrap(k, advanced.getitem_at_nowrap(i));
+              k++;
+            }
+          }
+        }
+        ContentPtr out = next.get()->getitem_next(head,
+                                                  tail,
+                                                  project ? projected : advanced);
         IndexedArrayOf<T, ISOPTION> out2(identities_,
                                          parameters_,
                                          outindex,
-- 
2.43.0


From d840e73804dd2a94a42c0c8ac0b3b76564c0d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 009/152] fix: a slice with missing values applied to zero
 lists gives zero lists

---
 src/libawkward/Content.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index effe39b..09e8710 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1547,10 +1547,6 @@ namespace awkward {
                                                 const RegularArray* raw,
                                                 int64_t length,
                                                 const std::string& classname) {
-    if (length == 0) {
-      length = 1;  // if this is in a tuple-slice and really should be 0, it will be trimmed later
-    }
-
     Index64 index(missing.index());
     Index64 outindex(index.length()*length);
 
@@ -1572,7 +1568,7 @@ namespace awkward {
                                           util::Parameters(),
                                           out.simplify_optiontype(),
                                           index.length(),
-                                          1);
+                                          length);
   }
 
   const ContentPtr getitem_next_missing_jagged(const SliceMissing64& missing,
-- 
2.43.0


From c8785a7f7cf3f35d85eb828df857d2657d120545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:10 +0000
Subject: [PATCH 010/152] fix: reductions across lists put each result in its
 own group

When some groups of a nonlocal reduction had only empty lists, the results of
later groups were attributed to them, and argmin/argmax counted positions
without the lists skipped at an outer level or before a nonzero first offset.
Regular dimensions give their full width for groups without any lists.
---
 src/libawkward/array/IndexedArray.cpp    |  3 +-
 src/libawkward/array/ListOffsetArray.cpp | 75 +++++++++++++-----------
 src/libawkward/array/RegularArray.cpp    | 61 +++++++++++++++++++
 3 files changed, 104 insertions(+), 35 deletions(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 734d1e4..afd3bca 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2212,8 +2212,7 @@ namespace awkward {
     util::handle_error(err2, classname(), identities_.get());
 
     std::pair<bool, int64_t> branchdepth = branch_depth();
-    bool make_shifts = (isoption()  &&
-                        reducer.returns_positions()  &&
+    bool make_shifts = (reducer.returns_positions()  &&
                         !branchdepth.first  && negaxis == branchdepth.second);
 
     Index64 nextshifts(make_shifts ? index_.length() - numnull : 0);
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 635a8cb..afc9cf9 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1409,45 +1409,50 @@ namespace awkward {
         nextlen);
       util::handle_error(err4, classname(), identities_.get());
 
-      Index64 gaps(outlength);
-      struct Error err5 = kernel::ListOffsetArray_reduce_nonlocal_findgaps_64(
-        kernel::lib::cpu,   // DERIVE
-        gaps.data(),
-        parents.data(),
-        parents.length());
-      util::handle_error(err5, classname(), identities_.get());
-
+      // Group k owns the outputs starting at k*maxcount, as many of them as
+      // its longest list has items.
       Index64 outstarts(outlength);
       Index64 outstops(outlength);
-      struct Error err6 = kernel::ListOffsetArray_reduce_nonlocal_outstartsstops_64(
-        kernel::lib::cpu,   // DERIVE
-        outstarts.data(),
-        outstops.data(),
-        distincts.data(),
-        maxcount * outlength,
-        gaps.data(),
-        outlength);
-      util::handle_error(err6, classname(), identities_.get());
+      for (int64_t k = 0;  k < outlength;  k++) {
+        outstarts.setitem_at_nowrap(k, k * maxcount);
+        outstops.setitem_at_nowrap(k, k * maxcount);
+      }
+      for (int64_t i = 0;  i < offsets_.length() - 1;  i++) {
+        int64_t parent = parents.getitem_at_nowrap(i);
+        int64_t stop = parent * maxcount
+                       + offsets_.getitem_at_nowrap(i + 1)
+                       - offsets_.getitem_at_nowrap(i);
+        if (outstops.getitem_at_nowrap(parent) < stop) {
+          outstops.setitem_at_nowrap(parent, stop);
+        }
+      }
 
       bool make_shifts = reducer.returns_positions();
 
       Index64 nextshifts(make_shifts ? nextlen : 0);
       if (make_shifts) {
-        Index64 nummissing(maxcount);
-        Index64 missing(offsets_.getitem_at(offsets_.length() - 1));
-        struct Error err7 = kernel::ListOffsetArray_reduce_nonlocal_nextshifts_64(
-          kernel::lib::cpu,   // DERIVE
-          nummissing.data(),
-          missing.data(),
-          nextshifts.data(),
-          offsets_.data(),
-          offsets_.length() - 1,
-          starts.data(),
-          parents.data(),
-          maxcount,
-          nextlen,
-          nextcarry.data());
-        util::handle_error(err7, classname(), identities_.get());
+        // The position to report for an item is the position of the list it
+        // came from (if that's what is reduced next, its rank among the lists
+        // that are long enough), which may be shifted by missing lists.
+        Index64 positions(nextlen);
+        for (int64_t i = 0;  i < offsets_.length() - 1;  i++) {
+          int64_t position = i - starts.getitem_at_nowrap(parents.getitem_at_nowrap(i));
+          if (shifts.length() != 0) {
+            position += shifts.getitem_at_nowrap(i);
+          }
+          for (int64_t j = offsets_.getitem_at_nowrap(i);
+               j < offsets_.getitem_at_nowrap(i + 1);
+               j++) {
+            positions.setitem_at_nowrap(j - globalstart, position);
+          }
+        }
+        for (int64_t k = 0;  k < nextlen;  k++) {
+          int64_t nextposition =
+            k - nextstarts.getitem_at_nowrap(nextparents.getitem_at_nowrap(k));
+          int64_t position =
+            positions.getitem_at_nowrap(nextcarry.getitem_at_nowrap(k) - globalstart);
+          nextshifts.setitem_at_nowrap(k, negaxis > 2 ? 0 : position - nextposition);
+        }
       }
 
       ContentPtr nextcontent = content_.get()->carry(nextcarry, false);
@@ -1499,9 +1504,13 @@ namespace awkward {
 
       ContentPtr trimmed = content_.get()->getitem_range_nowrap(globalstart,
                                                                 globalstop);
+      Index64 nextstarts(offsets_.length() - 1);
+      for (int64_t i = 0;  i < offsets_.length() - 1;  i++) {
+        nextstarts.setitem_at_nowrap(i, offsets_.getitem_at_nowrap(i) - globalstart);
+      }
       ContentPtr outcontent = trimmed.get()->reduce_next(reducer,
                                                          negaxis,
-                                                         util::make_starts(offsets_),
+                                                         nextstarts,
                                                          shifts,
                                                          nextparents,
                                                          offsets_.length() - 1,
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 3a84f1d..3783e80 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1059,6 +1059,67 @@ namespace awkward {
                             int64_t outlength,
                             bool mask,
                             bool keepdims) const {
+    std::pair<bool, int64_t> thisdepth = branch_depth();
+    if (!thisdepth.first  &&  negaxis == thisdepth.second  &&
+        !content_.get()->dimension_optiontype()) {
+      // Every group has exactly size_ outputs, including groups without lists.
+      int64_t nextlen = length() * size_;
+      Index64 nextcarry(nextlen);
+      Index64 nextparents(nextlen);
+      Index64 nextstarts(outlength * size_);
+      for (int64_t j = 0;  j < size_;  j++) {
+        int64_t lastparent = -1;
+        for (int64_t i = 0;  i < length();  i++) {
+          int64_t k = j*length() + i;
+          int64_t parent = parents.getitem_at_nowrap(i);
+          nextcarry.setitem_at_nowrap(k, i*size_ + j);
+          nextparents.setitem_at_nowrap(k, parent*size_ + j);
+          if (parent != lastparent) {
+            nextstarts.setitem_at_nowrap(parent*size_ + j, k);
+          }
+          lastparent = parent;
+        }
+      }
+
+      Index64 nextshifts(reducer.returns_positions() ? nextlen : 0);
+      if (reducer.returns_positions()) {
+        for (int64_t k = 0;  k < nextlen;  k++) {
+          int64_t i = k % length();
+          int64_t position = i - starts.getitem_at_nowrap(parents.getitem_at_nowrap(i));
+          if (shifts.length() != 0) {
+            position += shifts.getitem_at_nowrap(i);
+          }
+          int64_t nextposition =
+            k - nextstarts.getitem_at_nowrap(nextparents.getitem_at_nowrap(k));
+          nextshifts.setitem_at_nowrap(k, position - nextposition);
+        }
+      }
+
+      ContentPtr nextcontent = content_.get()->carry(nextcarry, false);
+      ContentPtr outcontent = nextcontent.get()->reduce_next(reducer,
+                                                             negaxis - 1,
+                                                             nextstarts,
+                                                             nextshifts,
+                                                             nextparents,
+                                                             outlength * size_,
+                                                             mask,
+                                                             false);
+      ContentPtr nonlocal = std::make_shared<RegularArray>(Identities::none(),
+                                                           util::Parameters(),
+                                                           outcontent,
+                                                           size_,
+                                                           outlength);
+      if (keepdims) {
+        nonlocal = RegularArray(Identities::none(),
+                                util::Parameters(),
+                                nonlocal,
+                                1,
+                                outlength
+                   ).toListOffsetArray64(false).get()->shallow_copy();
+      }
+      return nonlocal;
+    }
+
     ContentPtr out = toListOffsetArray64(true).get()->reduce_next(reducer,
                                                                   negaxis,
                                                                   starts,
-- 
2.43.0


From 1620906a0600cec08425d21687f71d8b46618803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:10 +0000
Subject: [PATCH 011/152] fix: argmin/argmax with axis=None of multidimensional
 and partitioned arrays

---
 src/awkward/operations/reducers.py | 60 +++++++++++++-----------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/src/awkward/operations/reducers.py b/src/awkward/operations/reducers.py
index 5727e07..a2aa0b3 100644
--- a/src/awkward/operations/reducers.py
+++ b/src/awkward/operations/reducers.py
@@ -712,27 +712,23 @@ def argmin(array, axis=None, keepdims=False, mask_identity=True):
 
     if axis is None:
         if isinstance(layout, ak.partition.PartitionedArray):
-            start = 0
-            best_index = None
-            best_value = None
-            for partition in layout.partitions:
-                for tmp in ak._util.completely_flatten(partition):
+            partitions = layout.partitions
+        else:
+            partitions = [layout]
+
+        start = 0
+        best_index = None
+        best_value = None
+        for partition in partitions:
+            for tmp in ak._util.completely_flatten(partition):
+                tmp = tmp.reshape(-1)
+                if len(tmp) != 0:
                     out = ak.nplike.of(tmp).argmin(tmp, axis=None)
                     if best_index is None or tmp[out] < best_value:
                         best_index = start + out
                         best_value = tmp[out]
-                start += len(partition)
-            return best_index
-
-        else:
-            best_index = None
-            best_value = None
-            for tmp in ak._util.completely_flatten(layout):
-                out = ak.nplike.of(tmp).argmin(tmp, axis=None)
-                if best_index is None or tmp[out] < best_value:
-                    best_index = out
-                    best_value = tmp[out]
-            return best_index
+                start += len(tmp)
+        return best_index
 
     else:
         behavior = ak._util.behaviorof(array)
@@ -782,27 +778,23 @@ def argmax(array, axis=None, keepdims=False, mask_identity=True):
 
     if axis is None:
         if isinstance(layout, ak.partition.PartitionedArray):
-            start = 0
-            best_index = None
-            best_value = None
-            for partition in layout.partitions:
-                for tmp in ak._util.completely_flatten(partition):
+            partitions = layout.partitions
+        else:
+            partitions = [layout]
+
+        start = 0
+        best_index = None
+        best_value = None
+        for partition in partitions:
+            for tmp in ak._util.completely_flatten(partition):
+                tmp = tmp.reshape(-1)
+                if len(tmp) != 0:
                     out = ak.nplike.of(tmp).argmax(tmp, axis=None)
                     if best_index is None or tmp[out] > best_value:
                         best_index = start + out
                         best_value = tmp[out]
-                start += len(partition)
-            return best_index
-
-        else:
-            best_index = None
-            best_value = None
-            for tmp in ak._util.completely_flatten(layout):
-                out = ak.nplike.of(tmp).argmax(tmp, axis=None)
-                if best_index is None or tmp[out] > best_value:
-                    best_index = out
-                    best_value = tmp[out]
-            return best_index
+                start += len(tmp)
+        return best_index
 
     else:
         behavior = ak._util.behaviorof(array)
-- 
2.43.0


From 987c380367b91354359d0dbea6e20f5fe1d6ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:35 +0000
Subject: [PATCH 012/152] fix: sorting of strings, missing lists and lists with
 nonzero first offsets

Descending string comparison was not a strict weak ordering (crashes, unstable
order) and stopped at NUL bytes; ListOffsetArrays whose offsets do not start at
zero gave invalid results; lists within lists that contain missing lists were
rearranged; sorting across several list levels wrote outside a temporary
buffer; flat arrays lost their missing values; empty arrays lost their type.
---
 ...wkward_ListOffsetArray_argsort_strings.cpp | 13 +---
 src/libawkward/Content.cpp                    |  3 +
 src/libawkward/array/IndexedArray.cpp         | 74 ++++++++++++++++---
 src/libawkward/array/ListOffsetArray.cpp      | 18 ++++-
 4 files changed, 84 insertions(+), 24 deletions(-)

diff --git a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
index 932270c..3c588f7 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
@@ -24,19 +24,12 @@ ERROR awkward_ListOffsetArray_argsort_strings_impl(
           size_t right_n = stringstops[right] - stringstarts[right];
           const char* left_str = &stringdata[stringstarts[left]];
           const char* right_str = &stringdata[stringstarts[right]];
-          int cmp = strncmp(left_str, right_str, std::min(left_n, right_n));
-          bool out;
+          int cmp = memcmp(left_str, right_str, std::min(left_n, right_n));
           if (cmp == 0) {
-            out = left_n < right_n;
+            return is_ascending ? left_n < right_n : left_n > right_n;
           }
           else {
-            out = cmp < 0;
-          }
-          if (is_ascending) {
-            return out;
-          }
-          else {
-            return !out;
+            return is_ascending ? cmp < 0 : cmp > 0;
           }
         };
 
diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 09e8710..59f266b 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1156,6 +1156,9 @@ namespace awkward {
       length());
     util::handle_error(err, classname(), identities_.get());
 
+    if (length() == 0) {
+      return sort_next(negaxis, starts, parents, 0, ascending, stable, false);
+    }
     ContentPtr out = sort_next(negaxis,
                                starts,
                                parents,
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index afd3bca..f0a6b9b 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2416,12 +2416,37 @@ namespace awkward {
 
     ContentPtr next = content_.get()->carry(nextcarry, false);
 
-    bool inject_nones = false;
     std::pair<bool, int64_t> branchdepth = branch_depth();
-    if (numnull > 0  &&  !branchdepth.first  &&  negaxis != branchdepth.second) {
+    if (!branchdepth.first  &&  negaxis != branchdepth.second) {
+      // this level is not sorted: its lists are, and they stay where they are
+      ContentPtr out = next.get()->sort_next(negaxis,
+                                      starts,
+                                      nextparents,
+                                      outlength,
+                                      ascending,
+                                      stable,
+                                      false);
+      IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
+                                            parameters_,
+                                            outindex,
+                                            out);
+      out = tmp.simplify_optiontype();
+      if (keepdims) {
+        out = std::make_shared<RegularArray>(Identities::none(),
+                                             util::Parameters(),
+                                             out,
+                                             out.get()->length(),
+                                             1);
+      }
+      return out;
+    }
+
+    // the missing values of a flat array come last, as they do in each list
+    bool wrap = (keepdims  &&  branchdepth.second == 1);
+    if (wrap) {
       keepdims = false;
-      inject_nones = true;
     }
+
     ContentPtr out = next.get()->sort_next(negaxis,
                                            starts,
                                            nextparents,
@@ -2447,12 +2472,12 @@ namespace awkward {
                                           out);
     out = tmp.simplify_optiontype();
 
-    if (inject_nones) {
+    if (wrap) {
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
-                                           parents_length,
-                                           0);
+                                           out.get()->length(),
+                                           1);
     }
 
     if (!branchdepth.first  &&  negaxis == branchdepth.second) {
@@ -2548,12 +2573,37 @@ namespace awkward {
 
     ContentPtr next = content_.get()->carry(nextcarry, false);
 
-    bool inject_nones = false;
     std::pair<bool, int64_t> branchdepth = branch_depth();
-    if (numnull > 0  &&  !branchdepth.first  &&  negaxis != branchdepth.second) {
+    if (!branchdepth.first  &&  negaxis != branchdepth.second) {
+      // this level is not sorted: its lists are, and they stay where they are
+      ContentPtr out = next.get()->argsort_next(negaxis,
+                                      starts,
+                                      nextparents,
+                                      outlength,
+                                      ascending,
+                                      stable,
+                                      false);
+      IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
+                                            util::Parameters(),
+                                            outindex,
+                                            out);
+      out = tmp.simplify_optiontype();
+      if (keepdims) {
+        out = std::make_shared<RegularArray>(Identities::none(),
+                                             util::Parameters(),
+                                             out,
+                                             out.get()->length(),
+                                             1);
+      }
+      return out;
+    }
+
+    // the missing values of a flat array come last, as they do in each list
+    bool wrap = (keepdims  &&  branchdepth.second == 1);
+    if (wrap) {
       keepdims = false;
-      inject_nones = true;
     }
+
     ContentPtr out = next.get()->argsort_next(negaxis,
                                               starts,
                                               nextparents,
@@ -2579,12 +2629,12 @@ namespace awkward {
                                           out);
     out = tmp.simplify_optiontype();
 
-    if (inject_nones) {
+    if (wrap) {
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
-                                           parents_length,
-                                           0);
+                                           out.get()->length(),
+                                           1);
     }
 
     if (!branchdepth.first  &&  negaxis == branchdepth.second) {
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index afc9cf9..cc4330d 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1725,6 +1725,11 @@ namespace awkward {
       return shallow_copy();
     }
 
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->sort_next(
+        negaxis, starts, parents, outlength, ascending, stable, keepdims);
+    }
+
     std::pair<bool, int64_t> branchdepth = branch_depth();
 
     if (parameter_equals("__array__", "\"string\"")  ||
@@ -1831,7 +1836,7 @@ namespace awkward {
       ContentPtr nextcontent = content_.get()->carry(nextcarry, false);
 
       ContentPtr outcontent = nextcontent.get()->sort_next(
-        negaxis - 1, nextstarts, nextparents, nextcontent.get()->length(),
+        negaxis - 1, nextstarts, nextparents, maxnextparents + 1,
         ascending, stable, false);
 
       Index64 outcarry(nextlen);
@@ -1926,7 +1931,16 @@ namespace awkward {
                                            bool stable,
                                            bool keepdims) const {
     if (length() == 0 ) {
-     return shallow_copy();
+      if (parameter_equals("__array__", "\"string\"")  ||
+          parameter_equals("__array__", "\"bytestring\"")) {
+        return std::make_shared<NumpyArray>(Index64(0));
+      }
+      return shallow_copy();
+    }
+
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->argsort_next(
+        negaxis, starts, parents, outlength, ascending, stable, keepdims);
     }
 
     std::pair<bool, int64_t> branchdepth = branch_depth();
-- 
2.43.0


From 32fed7a8869edb33e76cdd6fd9b29b9b4a67512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 013/152] fix: num below a list whose first offset is not zero

---
 src/libawkward/array/ListOffsetArray.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index cc4330d..2f3606f 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -966,7 +966,9 @@ namespace awkward {
       return std::make_shared<NumpyArray>(tonum);
     }
     else {
-      ContentPtr next = content_.get()->num(posaxis, depth + 1);
+      ContentPtr trimmed = content_.get()->getitem_range_nowrap(
+        offsets_.getitem_at(0), offsets_.getitem_at(-1));
+      ContentPtr next = trimmed.get()->num(posaxis, depth + 1);
       Index64 offsets = compact_offsets64(true);
       return std::make_shared<ListOffsetArray64>(Identities::none(),
                                                  util::Parameters(),
-- 
2.43.0


From 72344b3c1721329846fb28550b59dcb89ae8fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 014/152] fix: sorting records inside lists keeps the number of
 records

---
 src/libawkward/array/RecordArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 4eae122..26b8010 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1626,7 +1626,7 @@ namespace awkward {
                                          parameters_,
                                          contents,
                                          recordlookup_,
-                                         outlength);
+                                         keepdims ? outlength : length());
   }
 
   const ContentPtr
@@ -1657,7 +1657,7 @@ namespace awkward {
       util::Parameters(),
       contents,
       recordlookup_,
-      outlength);
+      keepdims ? outlength : length());
   }
 
   const ContentPtr
-- 
2.43.0


From b79fc033ece6450825967aae3dc5ddac97239e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 015/152] fix: toRegularArray of arrays with a zero-length
 inner dimension

---
 src/libawkward/array/NumpyArray.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index a175de9..d9c4a4a 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -494,11 +494,15 @@ namespace awkward {
       contiguous_self.dtype(),
       ptr_lib_);
     for (int64_t i = (int64_t)shape_.size() - 1;  i > 0;  i--) {
+      int64_t zeros_length = 1;
+      for (int64_t j = 0;  j < i;  j++) {
+        zeros_length = zeros_length * (int64_t)shape_[(size_t)j];
+      }
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
                                            shape_[(size_t)i],
-                                           shape_[(size_t)(i - 1)]);
+                                           zeros_length);
     }
     return out;
   }
-- 
2.43.0


From 2eb709c6949161562cac1615e5b61b35dfbaf1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 016/152] fix: run_lengths of empty lists and of unions

---
 src/awkward/operations/structure.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 195463b..3fc97f5 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -349,7 +349,8 @@ def run_lengths(array, highlevel=True, behavior=None):
             if isinstance(diffs, ak.highlevel.Array):
                 diffs = nplike.asarray(diffs)
             if offsets is not None:
-                diffs[offsets[1:-1] - 1] = True
+                boundaries = offsets[(offsets > 0) & (offsets < len(data))]
+                diffs[boundaries - 1] = True
             positions = nplike.nonzero(diffs)[0]
             full_positions = nplike.empty(len(positions) + 2, np.int64)
             full_positions[0] = 0
@@ -436,6 +437,15 @@ def run_lengths(array, highlevel=True, behavior=None):
                 ak.layout.Index64(nextoffsets), ak.layout.NumpyArray(nextcontent)
             )
 
+        elif isinstance(layout, ak._util.uniontypes) and any(
+            x.branch_depth[1] == 1 for x in layout.contents
+        ):
+            raise NotImplementedError(
+                "run_lengths on "
+                + type(layout).__name__
+                + ak._util.exception_suffix(__file__)
+            )
+
         else:
             return None
 
-- 
2.43.0


From b74b9d18b3ff14e0ce83b695568fd393785fc0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 017/152] fix: flatten of unions with missing values, records
 and multidimensional arrays

---
 src/awkward/_util.py                | 7 ++++---
 src/awkward/operations/structure.py | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 76bde2e..0ebc555 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -498,14 +498,15 @@ def completely_flatten(array):
     elif isinstance(array, recordtypes):
         out = []
         for i in range(array.numfields):
-            out.extend(completely_flatten(array.field(i)))
+            out.extend(completely_flatten(array.field(i)[: len(array)]))
         return tuple(out)
 
     elif isinstance(array, ak.layout.NumpyArray):
         if array.format.upper().startswith("M"):
-            return (ak.nplike.of(array).asarray(array.view_int64).view(array.format),)
+            out = ak.nplike.of(array).asarray(array.view_int64).view(array.format)
         else:
-            return (ak.nplike.of(array).asarray(array),)
+            out = ak.nplike.of(array).asarray(array)
+        return (out.reshape(-1),)
 
     else:
         raise RuntimeError(
diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 3fc97f5..d5acce2 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1914,16 +1914,17 @@ def flatten(array, axis=1, highlevel=True, behavior=None):
                     return layout
 
                 tags = nplike.asarray(layout.tags)
-                index = nplike.array(nplike.asarray(layout.index), copy=True)
+                index = nplike.array(
+                    nplike.asarray(layout.index)[: len(tags)], dtype=np.int64, copy=True
+                )
                 bigmask = nplike.empty(len(index), dtype=np.bool_)
                 for tag, content in enumerate(layout.contents):
                     if isinstance(content, ak._util.optiontypes) and not isinstance(
                         content, ak.layout.UnmaskedArray
                     ):
+                        nulls = nplike.asarray(content.bytemask()).view(np.bool_)
                         bigmask[:] = False
-                        bigmask[tags == tag] = nplike.asarray(content.bytemask()).view(
-                            np.bool_
-                        )
+                        bigmask[tags == tag] = nulls[index[tags == tag]]
                         index[bigmask] = -1
 
                 good = index >= 0
-- 
2.43.0


From aff641adb72da141c7b6e1e1ef2f9ba5106d017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 018/152] fix: unflatten with leading empty groups, negative or
 masked counts

---
 src/awkward/operations/structure.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index d5acce2..bce0e9a 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2025,7 +2025,8 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
     # Pack the layout above the axis that will be unflattened. This ensures that
     # the `counts` array, which is computed through these layouts, aligns with
     # the layout to be unflattened (#910)
-    layout = _packed(layout, axis=axis - 1, highlevel=False)
+    if axis != 0:
+        layout = _packed(layout, axis=axis - 1, highlevel=False)
 
     if isinstance(counts, (numbers.Integral, np.integer)):
         current_offsets = None
@@ -2054,6 +2055,11 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
             raise ValueError(
                 "counts must be integers" + ak._util.exception_suffix(__file__)
             )
+        if nplike.any(counts < 0):
+            raise ValueError(
+                "counts must not be negative" + ak._util.exception_suffix(__file__)
+            )
+        current_mask = [mask]
         current_offsets = [nplike.empty(len(counts) + 1, np.int64)]
         current_offsets[0][0] = 0
         nplike.cumsum(counts, out=current_offsets[0][1:])
@@ -2087,7 +2093,10 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
 
             out = ak.layout.ListOffsetArray64(ak.layout.Index64(offsets), layout)
             if not isinstance(mask, (bool, np.bool_)):
-                index = ak.layout.Index8(nplike.asarray(mask).astype(np.int8))
+                index = ak.layout.Index8(
+                    nplike.asarray(current_mask[0][:position]).astype(np.int8)
+                )
+                current_mask[0] = current_mask[0][position:]
                 out = ak.layout.ByteMaskedArray(index, out, valid_when=False)
 
         return out
@@ -2123,6 +2132,7 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
                 positions = (
                     nplike.searchsorted(inneroffsets, outeroffsets, side="right") - 1
                 )
+                positions[0] = 0
                 if not nplike.array_equal(inneroffsets[positions], outeroffsets):
                     raise ValueError(
                         "structure imposed by 'counts' does not fit in the array or partition "
@@ -2146,6 +2156,7 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
                         pass_depth=True,
                         pass_user=True,
                         user=axis,
+                        numpy_to_regular=True,
                     )
                 )
             out = ak.partition.IrregularlyPartitionedArray(outparts)
@@ -2156,6 +2167,7 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
                 pass_depth=True,
                 pass_user=True,
                 user=axis,
+                numpy_to_regular=True,
             )
 
     if current_offsets is not None and not (
-- 
2.43.0


From 56af3850d9a008e59d27429190b6a9dfe4fca9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 019/152] fix: mask and firsts of regular dimensions

---
 src/awkward/operations/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index bce0e9a..d7ee8b3 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -151,7 +151,7 @@ def mask(array, mask, valid_when=True, highlevel=True, behavior=None):
 
     def getfunction(inputs):
         layoutarray, layoutmask = inputs
-        if isinstance(layoutmask, ak.layout.NumpyArray):
+        if isinstance(layoutmask, ak.layout.NumpyArray) and layoutmask.ndim == 1:
             m = ak.nplike.of(layoutmask).asarray(layoutmask)
             if not issubclass(m.dtype.type, (bool, np.bool_)):
                 raise ValueError(
@@ -2954,6 +2954,7 @@ def firsts(array, axis=1, highlevel=True, behavior=None):
                 + ak._util.exception_suffix(__file__)
             )
         toslice = (slice(None, None, None),) * posaxis + (0,)
+        layout = from_regular(layout, axis=posaxis, highlevel=False)
         out = ak.mask(layout, ak.num(layout, axis=posaxis) > 0, highlevel=False)[
             toslice
         ]
-- 
2.43.0


From 7c3ec154fa56dfbb496d3779ca22190c9da3320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 020/152] fix: broadcasting of regular dimensions with lists,
 size-0 dimensions and unreachable tails

---
 src/awkward/_connect/_numpy.py      |  7 ++++++-
 src/awkward/_util.py                | 26 +++++++++++++++++++-------
 src/awkward/operations/structure.py |  2 +-
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/awkward/_connect/_numpy.py b/src/awkward/_connect/_numpy.py
index 7ac0a3c..b12e3b0 100644
--- a/src/awkward/_connect/_numpy.py
+++ b/src/awkward/_connect/_numpy.py
@@ -114,7 +114,7 @@ def array_ufunc(ufunc, method, inputs, kwargs):
             node = layout
             while isinstance(node, ak.layout.RegularArray):
                 shape.append(node.size)
-                node = node.content
+                node = node.content[: len(node) * node.size]
             if node.format.upper().startswith("M"):
                 nparray = ak.nplike.of(node).asarray(node.view_int64).view(node.format)
                 nparray = nparray.reshape(tuple(shape) + nparray.shape[1:])
@@ -168,6 +168,11 @@ def array_ufunc(ufunc, method, inputs, kwargs):
 
         inputs = [deregulate(x) for x in inputs]
 
+        if (
+            len({x.ndim for x in inputs if isinstance(x, ak.layout.NumpyArray)}) > 1
+        ):
+            return None
+
         if all(
             (
                 isinstance(x, ak.layout.NumpyArray)
diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 0ebc555..62e46ee 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -579,10 +579,7 @@ def broadcast_and_apply(  # noqa: C901
                 ):
                     return False
             elif isinstance(x, ak.layout.RegularArray):
-                if x.size == 0:
-                    my_offsets = nplike.empty(0, dtype=np.int64)
-                else:
-                    my_offsets = nplike.arange(0, len(x.content), x.size)
+                my_offsets = nplike.arange(len(x) + 1, dtype=np.int64) * x.size
                 if offsets is None:
                     offsets = my_offsets
                 elif not nplike.array_equal(offsets, my_offsets):
@@ -819,17 +816,29 @@ def broadcast_and_apply(  # noqa: C901
                                 )
                                 + exception_suffix(__file__)
                             )
+                    # handle implicit left-broadcasting (unlike NumPy)
+                    elif left_broadcast and isinstance(x, ak.layout.Content):
+                        nextinputs.append(
+                            ak.layout.IndexedArray64(
+                                ak.layout.Index64(
+                                    nplike.repeat(
+                                        nplike.arange(len(x), dtype=np.int64), maxsize
+                                    )
+                                ),
+                                x,
+                            ).project()
+                        )
                     else:
                         nextinputs.append(x)
 
-                maxlen = max(
-                    [len(x) for x in nextinputs if isinstance(x, ak.layout.Content)]
+                length = max(
+                    [len(x) for x in inputs if isinstance(x, ak.layout.Content)]
                 )
                 outcontent = apply(nextinputs, depth + 1, user)
                 assert isinstance(outcontent, tuple)
 
                 return tuple(
-                    ak.layout.RegularArray(x, maxsize, maxlen) for x in outcontent
+                    ak.layout.RegularArray(x, maxsize, length) for x in outcontent
                 )
 
             elif not all_same_offsets(nplike, inputs):
@@ -916,6 +925,9 @@ def broadcast_and_apply(  # noqa: C901
                             lencontent = nplike.max(stops)
                             nextinputs.append(x.content[:lencontent])
 
+                    elif isinstance(x, ak.layout.RegularArray):
+                        nextinputs.append(x.content[: len(x) * x.size])
+
                     else:
                         nextinputs.append(x)
 
diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index d7ee8b3..97a137b 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1413,7 +1413,7 @@ def broadcast_arrays(*arrays, **kwargs):
         inputs.append(y)
 
     def getfunction(inputs):
-        if all(isinstance(x, ak.layout.NumpyArray) for x in inputs):
+        if all(isinstance(x, ak.layout.NumpyArray) and x.ndim == 1 for x in inputs):
             return lambda: tuple(inputs)
         else:
             return None
-- 
2.43.0


From bfebea5a8d465021ccd3f02a032703185a33a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:36 +0000
Subject: [PATCH 021/152] fix: is_none below multidimensional arrays

---
 src/awkward/operations/structure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 97a137b..187afbe 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2847,7 +2847,12 @@ def is_none(array, axis=0, highlevel=True, behavior=None):
     layout = ak.operations.convert.to_layout(array)
 
     out = ak._util.recursively_apply(
-        layout, getfunction, pass_depth=True, pass_user=True, user=axis
+        layout,
+        getfunction,
+        pass_depth=True,
+        pass_user=True,
+        user=axis,
+        numpy_to_regular=True,
     )
 
     if highlevel:
-- 
2.43.0


From 687ac9ae7aaead77c1bc2ca7b2d54af2ab9636fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:36 +0000
Subject: [PATCH 022/152] fix: pad_none(axis=0, clip=True) of an UnmaskedArray
 clips

---
 src/libawkward/array/UnmaskedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index d1ef89b..cd0b0c4 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -883,7 +883,7 @@ namespace awkward {
                                int64_t depth) const {
     int64_t posaxis = axis_wrap_if_negative(axis);
     if (posaxis == depth) {
-      return rpad_axis0(target, false);
+      return rpad_axis0(target, true);
     }
     else if (posaxis == depth + 1) {
       return content_.get()->rpad_and_clip(target, posaxis, depth);
-- 
2.43.0


From ad49a0f2ca2837207c7a07629950446d3202e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:36 +0000
Subject: [PATCH 023/152] fix: arrays of strings are partitioned like any other
 array

---
 src/awkward/partition.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 7a636e8..f5b20a1 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -43,9 +43,14 @@ def partition_as(sample, arrays):
         for n, x in arrays.items():
             if isinstance(x, PartitionedArray):
                 out[n] = x.repartition(stops)
-            elif isinstance(x, ak.layout.Content) and (
-                x.parameter("__array__") == "string"
-                or x.parameter("__array__") == "bytestring"
+            elif (
+                isinstance(x, ak.layout.Content)
+                and (
+                    x.parameter("__array__") == "string"
+                    or x.parameter("__array__") == "bytestring"
+                )
+                and len(x) == 1
+                and stops[-1] != 1
             ):
                 out[n] = x
             elif isinstance(x, ak.layout.Content):
@@ -58,9 +63,14 @@ def partition_as(sample, arrays):
         for x in arrays:
             if isinstance(x, PartitionedArray):
                 out.append(x.repartition(stops))
-            elif isinstance(x, ak.layout.Content) and (
-                x.parameter("__array__") == "string"
-                or x.parameter("__array__") == "bytestring"
+            elif (
+                isinstance(x, ak.layout.Content)
+                and (
+                    x.parameter("__array__") == "string"
+                    or x.parameter("__array__") == "bytestring"
+                )
+                and len(x) == 1
+                and stops[-1] != 1
             ):
                 out.append(x)
             elif isinstance(x, ak.layout.Content):
-- 
2.43.0


From d46725f5ef7e0ee8c53a73b8e0ca107bcb05ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:36 +0000
Subject: [PATCH 024/152] fix: broadcasting zero lists with a nonzero first
 offset

---
 src/awkward/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 62e46ee..05f7e83 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -575,7 +575,7 @@ def broadcast_and_apply(  # noqa: C901
                         offsets[:-1] = starts
                         offsets[-1] = stops[-1]
                 elif not nplike.array_equal(offsets[:-1], starts) or (
-                    len(stops) != 0 and offsets[-1] != stops[-1]
+                    offsets[-1] != (0 if len(stops) == 0 else stops[-1])
                 ):
                     return False
             elif isinstance(x, ak.layout.RegularArray):
-- 
2.43.0


From f853182aef4d25a20301c4dca05a4a451f165aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:01 +0000
Subject: [PATCH 025/152] fix: buffer overrun in combinations of regular lists
 shorter than n

---
 src/libawkward/array/RegularArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 3783e80..e09d909 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1279,10 +1279,10 @@ namespace awkward {
       }
       std::shared_ptr<int64_t> toindex =
           kernel::malloc<int64_t>(kernel::lib::cpu,   // DERIVE
-                                  size*(int64_t)sizeof(int64_t));
+                                  n*(int64_t)sizeof(int64_t));
       std::shared_ptr<int64_t> fromindex =
           kernel::malloc<int64_t>(kernel::lib::cpu,   // DERIVE
-                                  size*(int64_t)sizeof(int64_t));
+                                  n*(int64_t)sizeof(int64_t));
 
       if (size_ != 0) {
         struct Error err = kernel::RegularArray_combinations_64(
-- 
2.43.0


From 76bb24cd13aa308fc5b3e5f352b56f3f16efe350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:02 +0000
Subject: [PATCH 026/152] fix: regular dimensions of size 1 broadcast with size
 0

---
 src/awkward/_util.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 05f7e83..8613172 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -786,12 +786,13 @@ def broadcast_and_apply(  # noqa: C901
                 isinstance(x, ak.layout.RegularArray) or not isinstance(x, listtypes)
                 for x in inputs
             ):
-                maxsize = max(
-                    [x.size for x in inputs if isinstance(x, ak.layout.RegularArray)]
-                )
+                sizes = [x.size for x in inputs if isinstance(x, ak.layout.RegularArray)]
+                maxsize = max(sizes)
+                if maxsize == 1 and min(sizes) == 0:
+                    maxsize = 0
                 for x in inputs:
                     if isinstance(x, ak.layout.RegularArray):
-                        if maxsize > 1 and x.size == 1:
+                        if maxsize != 1 and x.size == 1:
                             tmpindex = ak.layout.Index64(
                                 nplike.repeat(
                                     nplike.arange(len(x), dtype=np.int64), maxsize
@@ -800,7 +801,7 @@ def broadcast_and_apply(  # noqa: C901
                 nextinputs = []
                 for x in inputs:
                     if isinstance(x, ak.layout.RegularArray):
-                        if maxsize > 1 and x.size == 1:
+                        if maxsize != 1 and x.size == 1:
                             nextinputs.append(
                                 ak.layout.IndexedArray64(
                                     tmpindex, x.content[: len(x) * x.size]
-- 
2.43.0


From 9ede003c50579e88bd1f286981387bc3c80d5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:47 +0000
Subject: [PATCH 027/152] fix: merging real numbers into a complex array

---
 src/libawkward/array/NumpyArray.cpp | 66 +++++++++++++++++++----------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index d9c4a4a..a003393 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -2688,7 +2688,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<float>>(
@@ -2696,7 +2697,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<float>>(
@@ -2704,7 +2706,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<float>>(
@@ -2712,7 +2715,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<float>>(
@@ -2720,7 +2724,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<float>>(
@@ -2728,7 +2733,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<float>>(
@@ -2736,7 +2742,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<float>>(
@@ -2744,7 +2751,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<float>>(
@@ -2752,7 +2760,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2765,7 +2774,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<float>>(
@@ -2773,7 +2783,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<float>>(
@@ -2802,7 +2813,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<double>>(
@@ -2810,7 +2822,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<double>>(
@@ -2818,7 +2831,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<double>>(
@@ -2826,7 +2840,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<double>>(
@@ -2834,7 +2849,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<double>>(
@@ -2842,7 +2858,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<double>>(
@@ -2850,7 +2867,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<double>>(
@@ -2858,7 +2876,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<double>>(
@@ -2866,7 +2885,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2879,7 +2899,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<double>>(
@@ -2887,7 +2908,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<double>>(
-- 
2.43.0


From 85fee032b19205d5b2768c82898bc8f8b7dcb044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:47 +0000
Subject: [PATCH 028/152] fix: reverse_merge of IndexedArrays with 32-bit
 indexes

---
 src/libawkward/array/IndexedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index f0a6b9b..ac08830 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1771,7 +1771,7 @@ namespace awkward {
         theirlength);
       util::handle_error(err2, classname(), identities_.get());
     }
-    if (std::is_same<T, int64_t>::value) {
+    else if (std::is_same<T, int64_t>::value) {
       struct Error err2 = kernel::IndexedArray_fill<int64_t, int64_t>(
         kernel::lib::cpu,   // DERIVE
         index.data(),
-- 
2.43.0


From 5bf1adc3874a847008108c837c0798b71ad2defd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:47 +0000
Subject: [PATCH 029/152] fix: merging an option-type array with a later
 IndexedArray stays option-type

---
 src/libawkward/array/IndexedArray.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index ac08830..bde6a5c 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1872,7 +1872,6 @@ namespace awkward {
       }
 
       if (IndexedArray32* raw = dynamic_cast<IndexedArray32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int32_t, int64_t>(
@@ -1887,7 +1886,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArrayU32* raw = dynamic_cast<IndexedArrayU32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         IndexU32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<uint32_t, int64_t>(
@@ -1902,7 +1900,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArray64* raw = dynamic_cast<IndexedArray64*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index64 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int64_t, int64_t>(
-- 
2.43.0


From 7e0fafa74bb2711f5de98e179fd94d0760223c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:47 +0000
Subject: [PATCH 030/152] fix: virtual arrays are materialized before choosing
 how to merge them

---
 src/libawkward/Content.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 59f266b..de679b1 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -941,6 +941,9 @@ namespace awkward {
     size_t i = 0;
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      while (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       if (dynamic_cast<IndexedArray32*>(other.get())  ||
           dynamic_cast<IndexedArrayU32*>(other.get())  ||
           dynamic_cast<IndexedArray64*>(other.get())  ||
@@ -954,9 +957,6 @@ namespace awkward {
           dynamic_cast<UnionArray8_64*>(other.get())) {
         break;
       }
-      else if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
-        head.push_back(raw->array());
-      }
       else {
         head.push_back(other);
       }
@@ -964,6 +964,9 @@ namespace awkward {
 
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      while (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       tail.push_back(other);
     }
 
-- 
2.43.0


From e3c3573bb485c9c764ba54f4012cfca977be3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:47 +0000
Subject: [PATCH 031/152] fix: concatenate merges only mutually mergeable
 arrays

---
 src/awkward/operations/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 187afbe..5b4fe81 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1573,7 +1573,7 @@ def concatenate(
         ]
         batch = [contents[0]]
         for x in contents[1:]:
-            if batch[-1].mergeable(x, mergebool=mergebool):
+            if all(y.mergeable(x, mergebool=mergebool) for y in batch):
                 batch.append(x)
             else:
                 collapsed = batch[0].mergemany(batch[1:])
-- 
2.43.0


From a319ae98279d1884c74453c9380924937cda51ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:47 +0000
Subject: [PATCH 032/152] fix: concatenate checks the depth of partitioned
 arrays for negative axis

---
 src/awkward/operations/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 5b4fe81..2c23bf4 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1496,7 +1496,7 @@ def concatenate(
             "is ambiguous".format(axis) + ak._util.exception_suffix(__file__)
         )
     for x in contents:
-        if isinstance(x, ak.layout.Content):
+        if isinstance(x, (ak.layout.Content, ak.partition.PartitionedArray)):
             if x.axis_wrap_if_negative(axis) != posaxis:
                 raise ValueError(
                     "arrays to concatenate do not have the same depth for negative "
-- 
2.43.0


From 8be06ae3f4d62da21160e1be0ba55180df8682e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:47 +0000
Subject: [PATCH 033/152] fix: where with a multidimensional NumPy condition

---
 src/awkward/operations/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 2c23bf4..9aaacb7 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1764,7 +1764,7 @@ def where(condition, *args, **kwargs):
 
         def getfunction(inputs):
             akcondition, left, right = inputs
-            if isinstance(akcondition, ak.layout.NumpyArray):
+            if isinstance(akcondition, ak.layout.NumpyArray) and akcondition.ndim == 1:
                 npcondition = nplike.asarray(akcondition)
                 tags = ak.layout.Index8((npcondition == 0).view(np.int8))
                 index = ak.layout.Index64(nplike.arange(len(tags), dtype=np.int64))
-- 
2.43.0


From c839c1334277eedfa89679c40cf1467be49ee4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:35 +0000
Subject: [PATCH 034/152] fix: strings broadcast with regular lists

---
 src/awkward/_util.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 8613172..9005689 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -860,6 +860,15 @@ def broadcast_and_apply(  # noqa: C901
                         first = x
                         break
 
+                if first is None:
+                    regular = [
+                        x
+                        for x, fcn in zip(inputs, fcns)
+                        if isinstance(x, ak.layout.RegularArray) and fcn is None
+                    ]
+                    if len(regular) != 0:
+                        first = max(regular, key=lambda x: x.size)
+
                 if first is None:
                     secondround = True
                     for x in inputs:
-- 
2.43.0


From dd2a739ade16b911e30487e581ff7741a56ac967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:35 +0000
Subject: [PATCH 035/152] fix: merging records without fields

---
 src/awkward/operations/structure.py  | 2 +-
 src/libawkward/array/RecordArray.cpp | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 9aaacb7..ace575e 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1490,7 +1490,7 @@ def concatenate(
             if isinstance(x, (ak.layout.Content, ak.partition.PartitionedArray))
         ]
     )
-    if not 0 <= posaxis < maxdepth:
+    if not 0 <= posaxis < max(maxdepth, 1):
         raise ValueError(
             "axis={0} is beyond the depth of this array or the depth of this array "
             "is ambiguous".format(axis) + ak._util.exception_suffix(__file__)
diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 26b8010..2ff920c 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1371,6 +1371,13 @@ namespace awkward {
       }
     }
 
+    if (minlength == -1) {
+      minlength = 0;
+      for (auto array : head) {
+        minlength += array.get()->length();
+      }
+    }
+
     ContentPtr next = std::make_shared<RecordArray>(Identities::none(),
                                                     parameters,
                                                     nextcontents,
-- 
2.43.0


From 54f4283b88ea4a5d28eabc91fb2e5e9452a9d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:35 +0000
Subject: [PATCH 036/152] fix: arrays of different lengths are not cut to the
 partitions of another

---
 src/awkward/operations/structure.py | 13 +++++++++++++
 src/awkward/partition.py            |  6 ++++++
 2 files changed, 19 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index ace575e..99c03ad 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1539,6 +1539,19 @@ def concatenate(
                         start = stop
                     break
 
+            for content in contents:
+                if (
+                    isinstance(
+                        content, (ak.layout.Content, ak.partition.PartitionedArray)
+                    )
+                    and len(content) != stops[-1]
+                ):
+                    raise ValueError(
+                        "cannot concatenate arrays of different lengths ({0} and {1}) "
+                        "with axis={2}".format(stops[-1], len(content), axis)
+                        + ak._util.exception_suffix(__file__)
+                    )
+
             partitions = []
             offsets = [0]
             for slc in slices:
diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index f5b20a1..b449b16 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -670,6 +670,12 @@ class PartitionedArray(object):
 class IrregularlyPartitionedArray(PartitionedArray):
     @classmethod
     def toPartitioned(cls, layout, stops):
+        if len(stops) != 0 and len(layout) != stops[-1]:
+            raise ValueError(
+                "cannot partition an array of length {0} to match partitions with "
+                "total length {1}".format(len(layout), stops[-1])
+                + ak._util.exception_suffix(__file__)
+            )
         partitions = []
         start = 0
         for stop in stops:
-- 
2.43.0


From 5452823c15a161b515b094d02fde4c9e1989af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:35 +0000
Subject: [PATCH 037/152] fix: where broadcasts scalars with multidimensional
 arrays inside lists

---
 src/awkward/operations/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 99c03ad..3002ba0 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1777,7 +1777,9 @@ def where(condition, *args, **kwargs):
 
         def getfunction(inputs):
             akcondition, left, right = inputs
-            if isinstance(akcondition, ak.layout.NumpyArray) and akcondition.ndim == 1:
+            if isinstance(akcondition, ak.layout.NumpyArray) and not any(
+                isinstance(x, ak.layout.NumpyArray) and x.ndim > 1 for x in inputs
+            ):
                 npcondition = nplike.asarray(akcondition)
                 tags = ak.layout.Index8((npcondition == 0).view(np.int8))
                 index = ak.layout.Index64(nplike.arange(len(tags), dtype=np.int64))
-- 
2.43.0


From 85cde3331ac13a9d318a10003594a1ad3d75f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:35 +0000
Subject: [PATCH 038/152] fix: concatenate of missing lists and of strings at
 axis >= 1

---
 src/awkward/operations/structure.py | 37 ++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 3002ba0..fe3cd69 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1598,25 +1598,46 @@ def concatenate(
 
     else:
 
+        def is_list(x):
+            if isinstance(x, ak._util.listtypes):
+                return x.parameter("__array__") not in ("string", "bytestring")
+            else:
+                return isinstance(x, ak.layout.NumpyArray) and x.ndim > 1
+
+        def missing_to_empty(x):
+            nplike = ak.nplike.of(x)
+            if not isinstance(
+                x, (ak.layout.IndexedOptionArray32, ak.layout.IndexedOptionArray64)
+            ):
+                x = x.toIndexedOptionArray64()
+            content = x.content
+            if isinstance(content, ak.layout.NumpyArray):
+                content = content.toRegularArray()
+            content = content.toListOffsetArray64(False)
+            index, offsets = nplike.asarray(x.index), nplike.asarray(content.offsets)
+            good = index >= 0
+            starts = nplike.zeros(len(index), dtype=np.int64)
+            stops = nplike.zeros(len(index), dtype=np.int64)
+            starts[good] = offsets[:-1][index[good]]
+            stops[good] = offsets[1:][index[good]]
+            return ak.layout.ListArray64(
+                ak.layout.Index64(starts), ak.layout.Index64(stops), content.content
+            )
+
         def getfunction(inputs, depth):
             if depth == posaxis and any(
                 isinstance(x, ak._util.optiontypes) for x in inputs
             ):
                 nextinputs = []
                 for x in inputs:
-                    if isinstance(x, ak._util.optiontypes) and isinstance(
-                        x.content, ak._util.listtypes
-                    ):
-                        nextinputs.append(fill_none(x, [], highlevel=False))
+                    if isinstance(x, ak._util.optiontypes) and is_list(x.content):
+                        nextinputs.append(missing_to_empty(x))
                     else:
                         nextinputs.append(x)
                 inputs = nextinputs
 
             if depth == posaxis and all(
-                isinstance(x, ak._util.listtypes)
-                or (isinstance(x, ak.layout.NumpyArray) and x.ndim > 1)
-                or not isinstance(x, ak.layout.Content)
-                for x in inputs
+                is_list(x) or not isinstance(x, ak.layout.Content) for x in inputs
             ):
                 nplike = ak.nplike.of(*inputs)
 
-- 
2.43.0


From c2ade44948cdd06b19cb352987a205995645e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:56 +0000
Subject: [PATCH 039/152] fix: ArrayBuilder converting integers to complex
 overran its buffer

---
 src/libawkward/builder/Complex128Builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/builder/Complex128Builder.cpp b/src/libawkward/builder/Complex128Builder.cpp
index 6615ed1..1e46935 100644
--- a/src/libawkward/builder/Complex128Builder.cpp
+++ b/src/libawkward/builder/Complex128Builder.cpp
@@ -24,7 +24,7 @@ namespace awkward {
       GrowableBuffer<std::complex<double>>::empty(options, old.reserved());
     int64_t* oldraw = old.ptr().get();
     std::complex<double>* newraw = buffer.ptr().get();
-    for (int64_t i = 0;  i < 2*old.length();  i++) {
+    for (int64_t i = 0;  i < old.length();  i++) {
       newraw[i] = {static_cast<double>(oldraw[i]), 0};
     }
     buffer.set_length(old.length());
-- 
2.43.0


From bddab5d7e3101d472add4995edf902456c878fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:56 +0000
Subject: [PATCH 040/152] fix: ArrayBuilder end_record after a complex number
 raises

---
 src/libawkward/builder/Complex128Builder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/builder/Complex128Builder.cpp b/src/libawkward/builder/Complex128Builder.cpp
index 1e46935..aec7998 100644
--- a/src/libawkward/builder/Complex128Builder.cpp
+++ b/src/libawkward/builder/Complex128Builder.cpp
@@ -190,7 +190,9 @@ namespace awkward {
 
   const BuilderPtr
   Complex128Builder::endrecord() {
-    return shared_from_this();
+    throw std::invalid_argument(
+      std::string("called 'end_record' without 'begin_record' at the same level before it")
+      + FILENAME(__LINE__));
   }
 
   const BuilderPtr
-- 
2.43.0


From 46fbed85f1f974dc4ac383055a166519deee0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:56 +0000
Subject: [PATCH 041/152] fix: ArrayBuilder keeps strings and bytestrings apart

---
 src/libawkward/builder/StringBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libawkward/builder/StringBuilder.cpp b/src/libawkward/builder/StringBuilder.cpp
index 3810f04..bd3c07e 100644
--- a/src/libawkward/builder/StringBuilder.cpp
+++ b/src/libawkward/builder/StringBuilder.cpp
@@ -152,6 +152,11 @@ namespace awkward {
 
   const BuilderPtr
   StringBuilder::string(const char* x, int64_t length, const char* encoding) {
+    if (encoding != encoding_) {
+      BuilderPtr out = UnionBuilder::fromsingle(options_, shared_from_this());
+      out.get()->string(x, length, encoding);
+      return out;
+    }
     if (length < 0) {
       for (int64_t i = 0;  x[i] != 0;  i++) {
         content_.append((uint8_t)x[i]);
-- 
2.43.0


From bef393c3ace6827ddda6d3fc18298e3025e77247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:56 +0000
Subject: [PATCH 042/152] fix: ArrayBuilder index of nested tuples and of
 negative positions

---
 src/libawkward/builder/TupleBuilder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index a6dd45e..a922f0c 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -340,16 +340,16 @@ namespace awkward {
         std::string("called 'index' without 'begin_tuple' at the same level before it")
         + FILENAME(__LINE__));
     }
-    else if (index >= (int64_t)contents_.size()) {
-      throw std::invalid_argument(
-        std::string("'index' ")
-        + std::to_string(index)
-        + (" is out of bounds for a tuple with number of fields ")
-        + std::to_string(contents_.size())
-        + FILENAME(__LINE__));
-    }
     else if (nextindex_ == -1  ||
              !contents_[(size_t)nextindex_].get()->active()) {
+      if (index < 0  ||  index >= (int64_t)contents_.size()) {
+        throw std::invalid_argument(
+          std::string("'index' ")
+          + std::to_string(index)
+          + (" is out of bounds for a tuple with number of fields ")
+          + std::to_string(contents_.size())
+          + FILENAME(__LINE__));
+      }
       nextindex_ = index;
     }
     else {
-- 
2.43.0


From 5071b035669caa26ac6101b947a49688bebe06fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 043/152] fix: ArrayBuilder clear of records, tuples and open
 structures

---
 src/libawkward/builder/ListBuilder.cpp   | 1 +
 src/libawkward/builder/RecordBuilder.cpp | 9 +++------
 src/libawkward/builder/TupleBuilder.cpp  | 4 +++-
 src/libawkward/builder/UnionBuilder.cpp  | 1 +
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/builder/ListBuilder.cpp b/src/libawkward/builder/ListBuilder.cpp
index b5520f6..9cfeab0 100644
--- a/src/libawkward/builder/ListBuilder.cpp
+++ b/src/libawkward/builder/ListBuilder.cpp
@@ -50,6 +50,7 @@ namespace awkward {
     offsets_.clear();
     offsets_.append(0);
     content_.get()->clear();
+    begun_ = false;
   }
 
   const ContentPtr
diff --git a/src/libawkward/builder/RecordBuilder.cpp b/src/libawkward/builder/RecordBuilder.cpp
index 60036f0..8065aad 100644
--- a/src/libawkward/builder/RecordBuilder.cpp
+++ b/src/libawkward/builder/RecordBuilder.cpp
@@ -83,15 +83,12 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    keys_.clear();
-    pointers_.clear();
-    name_ = "";
-    nameptr_ = nullptr;
-    length_ = -1;
+    if (length_ != -1) {
+      length_ = 0;
+    }
     begun_ = false;
     nextindex_ = -1;
     nexttotry_ = 0;
-    keys_size_ = 0;
   }
 
   const ContentPtr
diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index a922f0c..b8a086b 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -58,7 +58,9 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    length_ = -1;
+    if (length_ != -1) {
+      length_ = 0;
+    }
     begun_ = false;
     nextindex_ = -1;
   }
diff --git a/src/libawkward/builder/UnionBuilder.cpp b/src/libawkward/builder/UnionBuilder.cpp
index 1064cea..3a49de0 100644
--- a/src/libawkward/builder/UnionBuilder.cpp
+++ b/src/libawkward/builder/UnionBuilder.cpp
@@ -65,6 +65,7 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
+    current_ = -1;
   }
 
   const ContentPtr
-- 
2.43.0


From fa6de3b92dbe6ac9455f4d6037c9a28839e724a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:30 +0000
Subject: [PATCH 044/152] fix: growable buffers of size 0 grow

---
 src/libawkward/builder/GrowableBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/builder/GrowableBuffer.cpp b/src/libawkward/builder/GrowableBuffer.cpp
index 38cd6b6..dbfbcbe 100644
--- a/src/libawkward/builder/GrowableBuffer.cpp
+++ b/src/libawkward/builder/GrowableBuffer.cpp
@@ -123,7 +123,8 @@ namespace awkward {
   void
   GrowableBuffer<T>::append(T datum) {
     if (length_ == reserved_) {
-      set_reserved((int64_t)ceil(reserved_ * options_.resize()));
+      int64_t minreserved = (int64_t)ceil(reserved_ * options_.resize());
+      set_reserved(minreserved > reserved_ ? minreserved : reserved_ + 1);
     }
     ptr_.get()[length_] = datum;
     length_++;
-- 
2.43.0


From 82788816d38889768d7c4f134299ca87d5c63098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:46 +0000
Subject: [PATCH 045/152] fix: Forth bit-width reads of more than 30 bits

---
 src/libawkward/forth/ForthMachine.cpp | 74 ++++++++++-----------------
 1 file changed, 27 insertions(+), 47 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 78474f9..e6f4b16 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2790,59 +2790,39 @@ namespace awkward {
               output = current_outputs_[(IndexTypeOf<int64_t>)out_num].get();
             }
 
-            uint64_t mask = (1 << bit_width) - 1;
-            uint64_t bits_wnd_l = 8;
-            uint64_t bits_wnd_r = 0;
-            int64_t items_remaining = num_items;
-            uint64_t data;
-            uint64_t tmp;
-            uint8_t* tmpptr;
-
-            if (items_remaining != 0) {
-              tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
-              if (current_error_ != util::ForthError::none) {
-                return;
-              }
-              tmp = (uint64_t)(*tmpptr);
-              if (flip) {
-                // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
-              }
-              data = tmp;
-            }
-            while (items_remaining != 0) {
-              if (bits_wnd_r >= 8) {
-                bits_wnd_r -= 8;
-                bits_wnd_l -= 8;
-                data >>= 8;
-              }
-              else if (bits_wnd_l - bits_wnd_r >= (uint64_t)bit_width) {
-                tmp = (data >> bits_wnd_r) & mask;
-                if (output == nullptr) {
-                  if (stack_cannot_push()) {
-                    current_error_ = util::ForthError::stack_overflow;
-                    return;
-                  }
-                  stack_push((T)tmp);
-                }
-                else {
-                  output->write_one_int64((T)tmp, false);
-                }
-                items_remaining--;
-                bits_wnd_r += (uint64_t)bit_width;
-              }
-              else {
-                tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
+            uint64_t mask = bit_width >= 64 ? ~(uint64_t)0 : ((uint64_t)1 << bit_width) - 1;
+            uint64_t data = 0;      // bits that have been read but not used: fewer than 8
+            int64_t num_bits = 0;   // number of those bits
+            for (int64_t count = num_items;  count != 0;  count--) {
+              uint64_t result = data & mask;
+              int64_t num_used = std::min(num_bits, (int64_t)bit_width);
+              data >>= num_used;
+              num_bits -= num_used;
+              while (num_used < (int64_t)bit_width) {
+                uint8_t* byte = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
                 if (current_error_ != util::ForthError::none) {
                   return;
                 }
-                tmp = (uint64_t)(*tmpptr);
+                data = (uint64_t)(*byte);
                 if (flip) {
                   // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                  tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
+                  data = (uint64_t)(bitswap_lookup[data & 0b1111] << 4) | bitswap_lookup[data >> 4];
                 }
-                data |= tmp << bits_wnd_l;
-                bits_wnd_l += 8;
+                result |= (data << num_used) & mask;
+                int64_t num_more = std::min((int64_t)8, (int64_t)bit_width - num_used);
+                data >>= num_more;
+                num_bits = 8 - num_more;
+                num_used += num_more;
+              }
+              if (output == nullptr) {
+                if (stack_cannot_push()) {
+                  current_error_ = util::ForthError::stack_overflow;
+                  return;
+                }
+                stack_push((T)result);
+              }
+              else {
+                output->write_one_uint64(result, false);
               }
             }
           }
-- 
2.43.0


From 6fc708a13cc7a968397863186e68acd98c67579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:46 +0000
Subject: [PATCH 046/152] fix: Forth division and modulo of extreme integers

---
 src/libawkward/forth/ForthMachine.cpp | 34 ++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index e6f4b16..3807e2f 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2646,9 +2646,31 @@ namespace awkward {
   static uint8_t bitswap_lookup[16] = {0x0, 0x8, 0x4, 0xc, 0x2, 0xa, 0x6, 0xe,
                                        0x1, 0x9, 0x5, 0xd, 0x3, 0xb, 0x7, 0xf};
 
+  // Division by -1 is special because the smallest integer has no opposite.
+  template <typename T>
+  static T
+  floor_div(T one, T two) {
+    if (two == -1) {
+      return (T)(0 - (uint64_t)one);
+    }
+    T tmp = one / two;
+    return tmp * two == one ? tmp : tmp - ((one < 0) ^ (two < 0));
+  }
+
+  template <typename T>
+  static T
+  floor_mod(T one, T two) {
+    if (two == -1) {
+      return 0;
+    }
+    T tmp = one % two;
+    return tmp != 0  &&  ((tmp < 0) ^ (two < 0)) ? tmp + two : tmp;
+  }
+
   template <typename T, typename I>
   void
   ForthMachineOf<T, I>::internal_run(bool single_step, int64_t recursion_target_depth_top) { // noexcept
+    bool step_done = false;
     while (recursion_current_depth_ != recursion_target_depth_top) {
       while (bytecodes_pointer_where() < (
                  bytecodes_offsets_[(IndexTypeOf<int64_t>)bytecodes_pointer_which() + 1] -
@@ -3517,8 +3539,7 @@ namespace awkward {
               }
               // Forth (gforth, at least) does floor division; C++ does integer division.
               // This makes a difference for negative numerator or denominator.
-              T tmp = pair[0] / pair[1];
-              pair[0] = tmp * pair[1] == pair[0] ? tmp : tmp - ((pair[0] < 0) ^ (pair[1] < 0));
+              pair[0] = floor_div(pair[0], pair[1]);
               break;
             }
 
@@ -3534,7 +3555,7 @@ namespace awkward {
               }
               // Forth (gforth, at least) does modulo; C++ does remainder.
               // This makes a difference for negative numerator or denominator.
-              pair[0] = (pair[1] + (pair[0] % pair[1])) % pair[1];
+              pair[0] = floor_mod(pair[0], pair[1]);
               break;
             }
 
@@ -3550,11 +3571,8 @@ namespace awkward {
                 return;
               }
               // See notes on division and modulo/remainder above.
-              T tmp = one / two;
-              stack_buffer_[stack_depth_ - 1] =
-                  tmp * two == one ? tmp : tmp - ((one < 0) ^ (two < 0));
-              stack_buffer_[stack_depth_ - 2] =
-                  (two + (one % two)) % two;
+              stack_buffer_[stack_depth_ - 1] = floor_div(one, two);
+              stack_buffer_[stack_depth_ - 2] = floor_mod(one, two);
               break;
             }
 
-- 
2.43.0


From cbe14bb6a89c9e940a08c14041daa5ccdad3360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:46 +0000
Subject: [PATCH 047/152] fix: Forth negative counts do not move before the
 input or beyond the output

---
 src/libawkward/forth/ForthInputBuffer.cpp  | 2 +-
 src/libawkward/forth/ForthOutputBuffer.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/forth/ForthInputBuffer.cpp b/src/libawkward/forth/ForthInputBuffer.cpp
index 13807d6..32731a1 100644
--- a/src/libawkward/forth/ForthInputBuffer.cpp
+++ b/src/libawkward/forth/ForthInputBuffer.cpp
@@ -16,7 +16,7 @@ namespace awkward {
   void*
   ForthInputBuffer::read(int64_t num_bytes, util::ForthError& err) noexcept {
     int64_t next = pos_ + num_bytes;
-    if (next > length_) {
+    if (num_bytes < 0  ||  next > length_) {
       err = util::ForthError::read_beyond;
       return nullptr;
     }
diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index 6fdd512..4802e08 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -67,7 +67,7 @@ namespace awkward {
   void
   ForthOutputBuffer::rewind(int64_t num_items, util::ForthError& err) noexcept {
     int64_t next = length_ - num_items;
-    if (next < 0) {
+    if (next < 0  ||  next > length_) {
       err = util::ForthError::rewind_beyond;
     }
     else {
-- 
2.43.0


From aca8be9bca6dbe4660fe261db211a50e24c4ca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:46 +0000
Subject: [PATCH 048/152] fix: Forth inputs byte-swapped in place must be
 writable

---
 src/libawkward/forth/ForthMachine.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 3807e2f..5549ae5 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -1923,7 +1923,7 @@ namespace awkward {
         }
 
         input_names_.push_back(name);
-        input_must_be_writable_.push_back(true);
+        input_must_be_writable_.push_back(false);
 
         pos += 2;
       }
@@ -2355,7 +2355,9 @@ namespace awkward {
           else {
             must_be_writable &= ((bytecode & READ_BIGENDIAN) != 0);
           }
-          input_must_be_writable_[input_index] = must_be_writable;
+          if (must_be_writable) {
+            input_must_be_writable_[input_index] = true;
+          }
 
           bool good = true;
           I nbits = 0;
-- 
2.43.0


From 17a960aee619f36c9b83a2c23d8cdd73593b063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:46 +0000
Subject: [PATCH 049/152] fix: Forth call at the recursion limit overran its
 buffers

---
 src/libawkward/forth/ForthMachine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 5549ae5..8163d05 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -1234,6 +1234,11 @@ namespace awkward {
       return current_error_;
     }
 
+    if (recursion_current_depth_ == recursion_max_depth_) {
+      current_error_ = util::ForthError::recursion_depth_exceeded;
+      return current_error_;
+    }
+
     recursion_target_depth_.push(recursion_current_depth_);
     bytecodes_pointer_push(dictionary_bytecodes_[(IndexTypeOf<int64_t>)index] - BOUND_DICTIONARY);
 
-- 
2.43.0


From 147f7f09e3a0d192f4faf2e9630e6e5f17bc653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 050/152] fix: Forth 64-bit machines keep 64-bit values

---
 src/libawkward/forth/ForthMachine.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 8163d05..a18c40f 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2,6 +2,8 @@
 
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/forth/ForthMachine.cpp", line)
 
+#include <algorithm>
+#include <cstdlib>
 #include <sstream>
 #include <stdexcept>
 #include <chrono>
@@ -2799,7 +2801,7 @@ namespace awkward {
                 stack_push((T)value);   // note: pushing value
               }
               else {
-                output->write_one_int64((T)value, false);   // note: writing value as signed
+                output->write_one_int64(value, false);   // note: writing value as signed
               }
             }
           }
@@ -2933,7 +2935,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -2959,7 +2961,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -3226,7 +3228,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
               break;
             }
 
@@ -3237,7 +3239,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
               break;
             }
 
@@ -3333,7 +3335,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
+              stack_push((T)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
               break;
             }
 
@@ -3397,7 +3399,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_i());
+              stack_push((T)do_i());
               break;
             }
 
@@ -3406,7 +3408,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_j());
+              stack_push((T)do_j());
               break;
             }
 
@@ -3415,7 +3417,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_k());
+              stack_push((T)do_k());
               break;
             }
 
@@ -3619,7 +3621,7 @@ namespace awkward {
                 return;
               }
               T* top = stack_peek();
-              *top = abs(*top);
+              *top = std::abs(*top);
               break;
             }
 
-- 
2.43.0


From 95523855d2907bc3f97e8102b3904b11ec917024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 051/152] fix: Forth exit, single steps and calls keep the
 do-loop stack in step

---
 src/libawkward/forth/ForthMachine.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index a18c40f..732ceb8 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -3029,6 +3029,7 @@ namespace awkward {
                 bytecodes_pointer_pop();
 
                 if (do_current_depth_ != 0  &&
+                    recursion_current_depth_ != recursion_target_depth_top  &&
                     do_abs_recursion_depth() == recursion_current_depth_) {
                   // End one step of a 'do ... loop' or a 'do ... +loop'.
                   if (do_loop_is_step()) {
@@ -3165,18 +3166,14 @@ namespace awkward {
               I exitdepth = bytecode_get();
               bytecodes_pointer_where()++;
               recursion_current_depth_ -= exitdepth;
+              // Leave all of this word's 'do' loops, but none of its callers'.
               while (do_current_depth_ != 0  &&
-                     do_abs_recursion_depth() != recursion_current_depth_) {
+                     do_abs_recursion_depth() >= recursion_current_depth_) {
                 do_current_depth_--;
               }
 
               count_instructions_++;
-              if (single_step) {
-                if (is_segment_done()) {
-                  bytecodes_pointer_pop();
-                }
-                return;
-              }
+              step_done = single_step;
 
               // StackOverflow said I could: https://stackoverflow.com/a/1257776/1623645
               //
@@ -3798,7 +3795,8 @@ namespace awkward {
         count_instructions_++;
         if (single_step) {
           if (is_segment_done()) {
-            bytecodes_pointer_pop();
+            step_done = true;
+            break;
           }
           return;
         }
@@ -3808,7 +3806,9 @@ namespace awkward {
     after_end_of_segment:
       bytecodes_pointer_pop();
 
+      // The end of a called word does not end a step of its caller's loop.
       if (do_current_depth_ != 0  &&
+          recursion_current_depth_ != recursion_target_depth_top  &&
           do_abs_recursion_depth() == recursion_current_depth_) {
         // End one step of a 'do ... loop' or a 'do ... +loop'.
         if (do_loop_is_step()) {
@@ -3823,6 +3823,10 @@ namespace awkward {
         }
       }
 
+      if (step_done) {
+        return;
+      }
+
     } // end of all segments
   }
 
-- 
2.43.0


From 8094324226374b372b82de08d6d734c356b7fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 052/152] fix: from_json parses numbers to full precision

---
 src/libawkward/io/json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index cc10337..79ec35a 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -775,7 +775,8 @@ namespace awkward {
     int64_t number = 0;
     while (stream.Peek() != 0) {
       handler.reset_moved();
-      bool fully_parsed = reader.Parse<rj::kParseStopWhenDoneFlag>(stream, handler);
+      bool fully_parsed = reader.Parse<rj::kParseStopWhenDoneFlag
+                                      | rj::kParseFullPrecisionFlag>(stream, handler);
       if (handler.moved()) {
         if (!fully_parsed) {
           if (stream.Peek() == 0) {
-- 
2.43.0


From 00983d1f03dea511233177f03f7446fb311872f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 053/152] fix: from_json rejects a malformed value at the end
 of the text

---
 src/libawkward/io/json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index 79ec35a..36f0b03 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -796,7 +796,8 @@ namespace awkward {
           number++;
         }
       }
-      else if (stream.Peek() != 0) {
+      else if (stream.Peek() != 0  ||
+               reader.GetParseErrorCode() != rj::kParseErrorDocumentEmpty) {
         throw std::invalid_argument(
           std::string("JSON File error at char ")
           + std::to_string(stream.Tell()) + std::string(": \'")
-- 
2.43.0


From da39f95be21edda61ebc5bc40813446ac1e1d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 054/152] fix: to_json of multidimensional NumpyArrays in a
 partition writes no extra brackets

---
 src/libawkward/array/NumpyArray.cpp | 40 +++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index a003393..13c59fa 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -4872,7 +4872,9 @@ namespace awkward {
     else {
       const std::vector<ssize_t> shape(std::next(shape_.begin()), shape_.end());
       const std::vector<ssize_t> strides(std::next(strides_.begin()), strides_.end());
-      builder.beginlist();
+      if (include_beginendlist) {
+        builder.beginlist();
+      }
       for (int64_t i = 0;  i < length();  i++) {
         ssize_t byteoffset = byteoffset_ + strides_[0]*((ssize_t)i);
         NumpyArray numpy(Identities::none(),
@@ -4887,7 +4889,9 @@ namespace awkward {
                          ptr_lib_);
         numpy.tojson_boolean(builder, true);
       }
-      builder.endlist();
+      if (include_beginendlist) {
+        builder.endlist();
+      }
     }
   }
 
@@ -4915,7 +4919,9 @@ namespace awkward {
     else {
       const std::vector<ssize_t> shape(std::next(shape_.begin()), shape_.end());
       const std::vector<ssize_t> strides(std::next(strides_.begin()), strides_.end());
-      builder.beginlist();
+      if (include_beginendlist) {
+        builder.beginlist();
+      }
       for (int64_t i = 0;  i < length();  i++) {
         ssize_t byteoffset = byteoffset_ + strides_[0]*((ssize_t)i);
         NumpyArray numpy(Identities::none(),
@@ -4930,7 +4936,9 @@ namespace awkward {
                          ptr_lib_);
         numpy.tojson_integer<T>(builder, true);
       }
-      builder.endlist();
+      if (include_beginendlist) {
+        builder.endlist();
+      }
     }
   }
 
@@ -4958,7 +4966,9 @@ namespace awkward {
     else {
       const std::vector<ssize_t> shape(std::next(shape_.begin()), shape_.end());
       const std::vector<ssize_t> strides(std::next(strides_.begin()), strides_.end());
-      builder.beginlist();
+      if (include_beginendlist) {
+        builder.beginlist();
+      }
       for (int64_t i = 0;  i < length();  i++) {
         ssize_t byteoffset = byteoffset_ + strides_[0]*((ssize_t)i);
         NumpyArray numpy(Identities::none(),
@@ -4973,7 +4983,9 @@ namespace awkward {
                          ptr_lib_);
         numpy.tojson_real<T>(builder, true);
       }
-      builder.endlist();
+      if (include_beginendlist) {
+        builder.endlist();
+      }
     }
   }
 
@@ -5001,7 +5013,9 @@ namespace awkward {
     else {
       const std::vector<ssize_t> shape(std::next(shape_.begin()), shape_.end());
       const std::vector<ssize_t> strides(std::next(strides_.begin()), strides_.end());
-      builder.beginlist();
+      if (include_beginendlist) {
+        builder.beginlist();
+      }
       for (int64_t i = 0;  i < length();  i++) {
         ssize_t byteoffset = byteoffset_ + strides_[0]*((ssize_t)i);
         NumpyArray numpy(Identities::none(),
@@ -5016,7 +5030,9 @@ namespace awkward {
                          ptr_lib_);
         numpy.tojson_complex<T>(builder, true);
       }
-      builder.endlist();
+      if (include_beginendlist) {
+        builder.endlist();
+      }
     }
   }
 
@@ -5034,7 +5050,9 @@ namespace awkward {
     else {
       const std::vector<ssize_t> shape(std::next(shape_.begin()), shape_.end());
       const std::vector<ssize_t> strides(std::next(strides_.begin()), strides_.end());
-      builder.beginlist();
+      if (include_beginendlist) {
+        builder.beginlist();
+      }
       for (int64_t i = 0;  i < length();  i++) {
         ssize_t byteoffset = byteoffset_ + strides_[0]*((ssize_t)i);
         NumpyArray numpy(Identities::none(),
@@ -5049,7 +5067,9 @@ namespace awkward {
                          ptr_lib_);
         numpy.tojson_string(builder, true);
       }
-      builder.endlist();
+      if (include_beginendlist) {
+        builder.endlist();
+      }
     }
   }
 
-- 
2.43.0


From b34f759356e46263ba13174416f43460fce2dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 055/152] fix: to_json of partitioned arrays accepts the string
 options

---
 include/awkward/partition/PartitionedArray.h  | 35 +++++++++++++-
 src/libawkward/partition/PartitionedArray.cpp | 47 ++++++++++++++++---
 src/python/partition.cpp                      | 42 ++++++++++++++---
 3 files changed, 110 insertions(+), 14 deletions(-)

diff --git a/include/awkward/partition/PartitionedArray.h b/include/awkward/partition/PartitionedArray.h
index c5f93a6..28ead1d 100644
--- a/include/awkward/partition/PartitionedArray.h
+++ b/include/awkward/partition/PartitionedArray.h
@@ -75,13 +75,29 @@ namespace awkward {
     /// If `false`, return a compact representation.
     /// @param maxdecimals Maximum number of decimals for floating-point
     /// numbers or `-1` for no limit.
+    /// @param nan_string User-defined string for a not-a-number (NaN) value
+    /// representation in JSON format.
+    /// @param infinity_string User-defined string for a positive infinity
+    /// representation in JSON format.
+    /// @param minus_infinity_string User-defined string for a negative
+    /// infinity representation in JSON format.
+    /// @param complex_real_string User-defined name for the real part of a
+    /// complex number record in JSON format.
+    /// @param complex_imag_string User-defined name for the imaginary part of
+    /// a complex number record in JSON format.
     ///
     /// Although the JSON output contains all of the data from the array
     /// (and therefore might not be safe to print to the screen), it
     /// does not preserve the type information of an array. In particular,
     /// the distinction between ListType and RegularType is lost.
     const std::string
-      tojson(bool pretty, int64_t maxdecimals) const;
+      tojson(bool pretty,
+             int64_t maxdecimals,
+             const char* nan_string = nullptr,
+             const char* infinity_string = nullptr,
+             const char* minus_infinity_string = nullptr,
+             const char* complex_real_string = nullptr,
+             const char* complex_imag_string = nullptr) const;
 
     /// @brief Writes a JSON representation of this array to a `destination`
     /// file.
@@ -92,6 +108,16 @@ namespace awkward {
     /// @param maxdecimals Maximum number of decimals for floating-point
     /// numbers or `-1` for no limit.
     /// @param buffersize Size of a temporary buffer in bytes.
+    /// @param nan_string User-defined string for a not-a-number (NaN) value
+    /// representation in JSON format.
+    /// @param infinity_string User-defined string for a positive infinity
+    /// representation in JSON format.
+    /// @param minus_infinity_string User-defined string for a negative
+    /// infinity representation in JSON format.
+    /// @param complex_real_string User-defined name for the real part of a
+    /// complex number record in JSON format.
+    /// @param complex_imag_string User-defined name for the imaginary part of
+    /// a complex number record in JSON format.
     ///
     /// Although the JSON output contains all of the data from the array
     /// (and therefore might not be safe to print to the screen), it
@@ -101,7 +127,12 @@ namespace awkward {
       tojson(FILE* destination,
              bool pretty,
              int64_t maxdecimals,
-             int64_t buffersize) const;
+             int64_t buffersize,
+             const char* nan_string = nullptr,
+             const char* infinity_string = nullptr,
+             const char* minus_infinity_string = nullptr,
+             const char* complex_real_string = nullptr,
+             const char* complex_imag_string = nullptr) const;
 
     /// @brief The length of the full array, summed over all partitions.
     virtual int64_t
diff --git a/src/libawkward/partition/PartitionedArray.cpp b/src/libawkward/partition/PartitionedArray.cpp
index e3456cd..2d10bf7 100644
--- a/src/libawkward/partition/PartitionedArray.cpp
+++ b/src/libawkward/partition/PartitionedArray.cpp
@@ -42,9 +42,20 @@ namespace awkward {
   }
 
   const std::string
-  PartitionedArray::tojson(bool pretty, int64_t maxdecimals) const {
+  PartitionedArray::tojson(bool pretty,
+                           int64_t maxdecimals,
+                           const char* nan_string,
+                           const char* infinity_string,
+                           const char* minus_infinity_string,
+                           const char* complex_real_string,
+                           const char* complex_imag_string) const {
     if (pretty) {
-      ToJsonPrettyString builder(maxdecimals);
+      ToJsonPrettyString builder(maxdecimals,
+                                 nan_string,
+                                 infinity_string,
+                                 minus_infinity_string,
+                                 complex_real_string,
+                                 complex_imag_string);
       builder.beginlist();
       for (auto p : partitions_) {
         p.get()->tojson_part(builder, false);
@@ -53,7 +64,12 @@ namespace awkward {
       return builder.tostring();
     }
     else {
-      ToJsonString builder(maxdecimals);
+      ToJsonString builder(maxdecimals,
+                           nan_string,
+                           infinity_string,
+                           minus_infinity_string,
+                           complex_real_string,
+                           complex_imag_string);
       builder.beginlist();
       for (auto p : partitions_) {
         p.get()->tojson_part(builder, false);
@@ -67,9 +83,21 @@ namespace awkward {
   PartitionedArray::tojson(FILE* destination,
                            bool pretty,
                            int64_t maxdecimals,
-                           int64_t buffersize) const {
+                           int64_t buffersize,
+                           const char* nan_string,
+                           const char* infinity_string,
+                           const char* minus_infinity_string,
+                           const char* complex_real_string,
+                           const char* complex_imag_string) const {
     if (pretty) {
-      ToJsonPrettyFile builder(destination, maxdecimals, buffersize);
+      ToJsonPrettyFile builder(destination,
+                               maxdecimals,
+                               buffersize,
+                               nan_string,
+                               infinity_string,
+                               minus_infinity_string,
+                               complex_real_string,
+                               complex_imag_string);
       builder.beginlist();
       for (auto p : partitions_) {
         p.get()->tojson_part(builder, false);
@@ -77,7 +105,14 @@ namespace awkward {
       builder.endlist();
     }
     else {
-      ToJsonFile builder(destination, maxdecimals, buffersize);
+      ToJsonFile builder(destination,
+                         maxdecimals,
+                         buffersize,
+                         nan_string,
+                         infinity_string,
+                         minus_infinity_string,
+                         complex_real_string,
+                         complex_imag_string);
       builder.beginlist();
       for (auto p : partitions_) {
         p.get()->tojson_part(builder, false);
diff --git a/src/python/partition.cpp b/src/python/partition.cpp
index f0e01ae..1b7750a 100644
--- a/src/python/partition.cpp
+++ b/src/python/partition.cpp
@@ -16,9 +16,19 @@ template <typename T>
 std::string
 tojson_string(const T& self,
               bool pretty,
-              const py::object& maxdecimals) {
+              const py::object& maxdecimals,
+              const char* nan_string,
+              const char* infinity_string,
+              const char* minus_infinity_string,
+              const char* complex_real_string,
+              const char* complex_imag_string) {
   return self.tojson(pretty,
-                     check_maxdecimals(maxdecimals));
+                     check_maxdecimals(maxdecimals),
+                     nan_string,
+                     infinity_string,
+                     minus_infinity_string,
+                     complex_real_string,
+                     complex_imag_string);
 }
 
 template <typename T>
@@ -27,7 +37,12 @@ tojson_file(const T& self,
             const std::string& destination,
             bool pretty,
             py::object maxdecimals,
-            int64_t buffersize) {
+            int64_t buffersize,
+            const char* nan_string,
+            const char* infinity_string,
+            const char* minus_infinity_string,
+            const char* complex_real_string,
+            const char* complex_imag_string) {
 #ifdef _MSC_VER
   FILE* file;
   if (fopen_s(&file, destination.c_str(), "wb") != 0) {
@@ -43,7 +58,12 @@ tojson_file(const T& self,
     self.tojson(file,
                 pretty,
                 check_maxdecimals(maxdecimals),
-                buffersize);
+                buffersize,
+                nan_string,
+                infinity_string,
+                minus_infinity_string,
+                complex_real_string,
+                complex_imag_string);
   }
   catch (...) {
     fclose(file);
@@ -88,13 +108,23 @@ partitionedarray_methods(py::class_<T, std::shared_ptr<T>,
           .def("tojson",
                &tojson_string<T>,
                py::arg("pretty") = false,
-               py::arg("maxdecimals") = py::none())
+               py::arg("maxdecimals") = py::none(),
+               py::arg("nan_string") = nullptr,
+               py::arg("infinity_string") = nullptr,
+               py::arg("minus_infinity_string") = nullptr,
+               py::arg("complex_real_string") = nullptr,
+               py::arg("complex_imag_string") = nullptr)
           .def("tojson",
                &tojson_file<T>,
                py::arg("destination"),
                py::arg("pretty") = false,
                py::arg("maxdecimals") = py::none(),
-               py::arg("buffersize") = 65536)
+               py::arg("buffersize") = 65536,
+               py::arg("nan_string") = nullptr,
+               py::arg("infinity_string") = nullptr,
+               py::arg("minus_infinity_string") = nullptr,
+               py::arg("complex_real_string") = nullptr,
+               py::arg("complex_imag_string") = nullptr)
           .def("getitem_at", [](const T& self, int64_t at) -> py::object {
             return box(self.getitem_at(at));
           })
-- 
2.43.0


From b7e727e3e39aa815b63c6d119bd1759122ff7070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 056/152] fix: from_json complex_record_fields builds an
 awkward array

---
 src/awkward/operations/convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index acbeb75..ed4f2bf 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -1093,13 +1093,14 @@ def from_json(
                     and isinstance(imag, ak.layout.NumpyArray)
                     and len(imag.shape) == 1
                 ):
-                    return lambda: nplike.asarray(real) + nplike.asarray(imag) * 1j
+                    return lambda: ak.layout.NumpyArray(
+                        nplike.asarray(real) + nplike.asarray(imag) * 1j
+                    )
                 else:
                     raise ValueError(
                         "Complex number fields must be numbers"
                         + ak._util.exception_suffix(__file__)
                     )
-                return lambda: ak.layout.NumpyArray(real + imag * 1j)
             else:
                 return None
         else:
-- 
2.43.0


From 3624f9617785615d9a577d8db82e793508083c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:47 +0000
Subject: [PATCH 057/152] fix: forms keep the units of dates in JSON and in
 to_numpy

---
 src/libawkward/Content.cpp          | 6 ++++++
 src/libawkward/array/NumpyArray.cpp | 2 ++
 src/libawkward/util.cpp             | 4 ++--
 src/python/forms.cpp                | 4 +---
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index de679b1..7eae64e 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -310,6 +310,12 @@ namespace awkward {
           format = raw->format();
           itemsize = raw->itemsize();
           dtype = util::format_to_dtype(format, itemsize);
+          if ((dtype == util::dtype::datetime64  ||
+               dtype == util::dtype::timedelta64)  &&
+              json.HasMember("format")  &&  json["format"].IsString()) {
+            // the units are only in the format
+            format = json["format"].GetString();
+          }
         }
         else if (json.HasMember("format")  &&  json["format"].IsString()  &&
                  json.HasMember("itemsize")  &&  json["itemsize"].IsInt()) {
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 13c59fa..e123aab 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -129,6 +129,8 @@ namespace awkward {
     if (verbose  ||
         toplevel  ||
         p.empty()  ||
+        dtype_ == util::dtype::datetime64  ||
+        dtype_ == util::dtype::timedelta64  ||
         !inner_shape_.empty() ||
         has_identities_  ||
         !parameters_.empty()  ||
diff --git a/src/libawkward/util.cpp b/src/libawkward/util.cpp
index 0047d71..989cd86 100644
--- a/src/libawkward/util.cpp
+++ b/src/libawkward/util.cpp
@@ -211,10 +211,10 @@ namespace awkward {
       else if (fmt == std::string("Zg")) {
         return dtype::complex256;
       }
-      else if (fmt == std::string("M")) {
+      else if (fmt == std::string("M")  ||  fmt.rfind("M8", 0) == 0) {
         return dtype::datetime64;
       }
-      else if (fmt == std::string("m")) {
+      else if (fmt == std::string("m")  ||  fmt.rfind("m8", 0) == 0) {
         return dtype::timedelta64;
       }
       else {
diff --git a/src/python/forms.cpp b/src/python/forms.cpp
index 280f309..df83f13 100644
--- a/src/python/forms.cpp
+++ b/src/python/forms.cpp
@@ -514,10 +514,8 @@ make_NumpyForm(const py::handle& m, const std::string& name) {
           dt = "c32";
           break;
         case ak::util::dtype::datetime64:
-          dt = "?";
-          break;
         case ak::util::dtype::timedelta64:
-          dt = "?";
+          dt = self.format();
           break;
         default:
           // FIXME: record arrays; need to parse 'format'
-- 
2.43.0


From 6c511c9ac9fa135d88a6fdc7576d42d279bb1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:47 +0000
Subject: [PATCH 058/152] fix: from_buffers accepts strided buffers, empty
 bytes and zero-size items

---
 src/awkward/operations/convert.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index ed4f2bf..afc9b95 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4425,12 +4425,14 @@ _index_form_to_dtype = _index_form_to_index = _form_to_layout_class = None
 
 
 def _asbuf(obj):
+    if isinstance(obj, bytes):
+        return numpy.frombuffer(obj, np.uint8)
     try:
         tmp = numpy.asarray(obj)
     except Exception:
         return numpy.frombuffer(obj, np.uint8)
     else:
-        return tmp.reshape(-1).view(np.uint8)
+        return numpy.ascontiguousarray(tmp.reshape(-1)).view(np.uint8)
 
 
 def _form_to_layout(
@@ -4726,6 +4728,12 @@ def _form_to_layout(
         else:
             dtype, inner_shape = dtype_inner_shape.subdtype
 
+        if dtype_inner_shape.itemsize == 0:
+            shape = (0 if length is None else length,) + inner_shape
+            return ak.layout.NumpyArray(
+                numpy.empty(shape, dtype), identities, parameters
+            )
+
         if length is not None:
             actual = len(raw_array) // dtype_inner_shape.itemsize
             if length > actual:
-- 
2.43.0


From 7f68c2adcdea5ef6a3a413b573d1e5d40b9bbfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:48 +0000
Subject: [PATCH 059/152] fix: to_buffers of dates

---
 src/awkward/operations/convert.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index afc9b95..c2d7646 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4294,9 +4294,13 @@ def to_buffers(
         elif isinstance(layout, ak.layout.NumpyArray):
             fk = form_key(id=str(key_index), layout=layout)
             key = key_format(form_key=fk, attribute="data", partition=str(part))
-            array = numpy.asarray(layout)
+            if layout.format.startswith(("M8", "m8")):
+                array = numpy.asarray(layout.view_int64).view(layout.format)
+                form = layout.form
+            else:
+                array = numpy.asarray(layout)
+                form = ak.forms.Form.from_numpy(array.dtype)
             container[key] = little_endian(array)
-            form = ak.forms.Form.from_numpy(array.dtype)
             return ak.forms.NumpyForm(
                 layout.shape[1:],
                 form.itemsize,
-- 
2.43.0


From 43217d0bfe3c024415586396338e114f07f3c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:48 +0000
Subject: [PATCH 060/152] fix: from_buffers(lazy=True) of tuples

---
 src/awkward/operations/convert.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index c2d7646..bb4e273 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4937,7 +4937,8 @@ def _from_buffers_key():
 def _wrap_record_with_virtual(input_form):
     def modify(form):
         if form["class"] == "RecordArray":
-            for item in form["contents"].values():
+            contents = form["contents"]
+            for item in contents.values() if isinstance(contents, dict) else contents:
                 modify(item)
         elif form["class"].startswith("UnionArray"):
             for item in form["contents"]:
@@ -4946,11 +4947,12 @@ def _wrap_record_with_virtual(input_form):
             modify(form["content"])
 
         if form["class"] == "RecordArray":
-            for key in form["contents"].keys():
-                form["contents"][key] = {
+            contents = form["contents"]
+            for key in contents if isinstance(contents, dict) else range(len(contents)):
+                contents[key] = {
                     "class": "VirtualArray",
                     "has_length": True,
-                    "form": form["contents"][key],
+                    "form": contents[key],
                 }
 
     form = json.loads(input_form.tojson())
-- 
2.43.0


From 09aa263ecc0da3f8b51eeab2318a0c36b83c87ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:48 +0000
Subject: [PATCH 061/152] fix: packed keeps parameters, categoricals and
 zero-size lists

---
 src/awkward/operations/structure.py | 50 +++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index fe3cd69..257306e 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2244,6 +2244,20 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
         elif isinstance(layout, ak.layout.EmptyArray):
             return layout
 
+        # Categorical arrays keep their index
+        elif (
+            isinstance(
+                layout, ak._util.indexedtypes + ak._util.indexedoptiontypes
+            )
+            and layout.parameter("__array__") == "categorical"
+        ):
+            return type(layout)(
+                layout.index,
+                apply(layout.content, depth, posaxis),
+                layout.identities,
+                layout.parameters,
+            )
+
         # Project indexed arrays
         elif isinstance(layout, ak._util.indexedoptiontypes):
             if isinstance(layout.content, ak._util.optiontypes):
@@ -2257,12 +2271,23 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
             new_index[~is_none] = nplike.arange(len(new_index) - nplike.sum(is_none))
 
             return ak.layout.IndexedOptionArray64(
-                ak.layout.Index64(new_index), apply(layout.project(), depth, posaxis)
+                ak.layout.Index64(new_index),
+                apply(layout.project(), depth, posaxis),
+                layout.identities,
+                layout.parameters,
             )
 
         # Project indexed arrays
         elif isinstance(layout, ak._util.indexedtypes):
-            return apply(layout.project(), depth, posaxis)
+            out = layout.project()
+            if len(layout.parameters) != 0:
+                # parameters of the index override those of its content
+                if isinstance(out, ak.layout.NumpyArray) and out.ndim != 1:
+                    out = out.toRegularArray()
+                for k, v in layout.parameters.items():
+                    if k != "__array__":
+                        out.setparameter(k, v)
+            return apply(out, depth, posaxis)
 
         # ListArray performs both ordering and resizing
         elif isinstance(
@@ -2295,7 +2320,11 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
         # UnmaskedArray just wraps another array
         elif isinstance(layout, ak.layout.UnmaskedArray):
-            return ak.layout.UnmaskedArray(apply(layout.content, depth, posaxis))
+            return ak.layout.UnmaskedArray(
+                apply(layout.content, depth, posaxis),
+                layout.identities,
+                layout.parameters,
+            )
 
         # UnionArrays can be simplified
         # and their contents too
@@ -2343,19 +2372,20 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
         # RegularArrays can change length
         elif isinstance(layout, ak.layout.RegularArray):
-            if not len(layout):
-                return layout
-
             content = layout.content
 
             # Truncate content if it is larger than a perfect
             # multiple of the RegularArray size
-            n, r = divmod(len(content), layout.size)
-            if r != 0:
-                content = truncate(content, n * layout.size)
+            n = len(layout) * layout.size
+            if n != len(content):
+                content = truncate(content, n)
 
             return ak.layout.RegularArray(
-                apply(content, depth + 1, posaxis), layout.size
+                apply(content, depth + 1, posaxis),
+                layout.size,
+                len(layout),
+                layout.identities,
+                layout.parameters,
             )
 
         # BitMaskedArrays can change length
-- 
2.43.0


From cc7d958dfbce8cad1cf5a8cfee2c5cea9e56f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:36 +0000
Subject: [PATCH 062/152] fix: with_field replacing the only field keeps the
 structure of the array

---
 src/awkward/operations/structure.py | 70 +++++++++++++----------------
 1 file changed, 32 insertions(+), 38 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 257306e..d6fc214 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -959,47 +959,41 @@ def with_field(base, what, where=None, highlevel=True, behavior=None):
         if where in base.keys():
             keys.remove(where)
 
-        if len(keys) == 0:
-            # the only key was removed, so just create new Record
-            out = (ak.layout.RecordArray([what], [where], parameters=base.parameters),)
-
-        else:
-
-            def getfunction(inputs):
-                nplike = ak.nplike.of(*inputs)
-                base, what = inputs
-                if isinstance(base, ak.layout.RecordArray):
-                    if what is None:
-                        what = ak.layout.IndexedOptionArray64(
-                            ak.layout.Index64(nplike.full(len(base), -1, np.int64)),
-                            ak.layout.EmptyArray(),
-                        )
-                    elif not isinstance(what, ak.layout.Content):
-                        what = ak.layout.NumpyArray(nplike.repeat(what, len(base)))
-                    if base.istuple and where is None:
-                        recordlookup = None
-                    elif base.istuple:
-                        recordlookup = keys + [where]
-                    elif where is None:
-                        recordlookup = keys + [str(len(keys))]
-                    else:
-                        recordlookup = keys + [where]
-                    out = ak.layout.RecordArray(
-                        [base[k] for k in keys] + [what],
-                        recordlookup,
-                        parameters=base.parameters,
+        def getfunction(inputs):
+            nplike = ak.nplike.of(*inputs)
+            base, what = inputs
+            if isinstance(base, ak.layout.RecordArray):
+                if what is None:
+                    what = ak.layout.IndexedOptionArray64(
+                        ak.layout.Index64(nplike.full(len(base), -1, np.int64)),
+                        ak.layout.EmptyArray(),
                     )
-                    return lambda: (out,)
+                elif not isinstance(what, ak.layout.Content):
+                    what = ak.layout.NumpyArray(nplike.repeat(what, len(base)))
+                if base.istuple and where is None:
+                    recordlookup = None
+                elif base.istuple:
+                    recordlookup = keys + [where]
+                elif where is None:
+                    recordlookup = keys + [str(len(keys))]
                 else:
-                    return None
+                    recordlookup = keys + [where]
+                out = ak.layout.RecordArray(
+                    [base[k] for k in keys] + [what],
+                    recordlookup,
+                    parameters=base.parameters,
+                )
+                return lambda: (out,)
+            else:
+                return None
 
-            out = ak._util.broadcast_and_apply(
-                [base, what],
-                getfunction,
-                behavior,
-                right_broadcast=False,
-                pass_depth=False,
-            )
+        out = ak._util.broadcast_and_apply(
+            [base, what],
+            getfunction,
+            behavior,
+            right_broadcast=False,
+            pass_depth=False,
+        )
 
         assert isinstance(out, tuple) and len(out) == 1
 
-- 
2.43.0


From e60715ac3b958368e5e84cdd531b604023fc75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:44 +0000
Subject: [PATCH 063/152] fix: zip descends to strings and no further

---
 src/awkward/operations/structure.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index d6fc214..d903da9 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -637,18 +637,7 @@ def zip(
         parameters["__record__"] = with_name
 
     def getfunction(inputs, depth):
-        if depth_limit == depth or (
-            depth_limit is None
-            and all(
-                x.purelist_depth == 1
-                or (
-                    x.purelist_depth == 2
-                    and x.purelist_parameter("__array__")
-                    in ("string", "bytestring", "categorical")
-                )
-                for x in inputs
-            )
-        ):
+        if depth_limit == depth or all(x.purelist_depth == 1 for x in inputs):
             return lambda: (
                 ak.layout.RecordArray(inputs, recordlookup, parameters=parameters),
             )
-- 
2.43.0


From 5f3051390c14bdfc896d4d54d2dc59b602dff7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:10 +0000
Subject: [PATCH 064/152] fix: combining missing values no longer overwrites
 the mask of an input

---
 src/awkward/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 9005689..bfab2ff 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -751,7 +751,7 @@ def broadcast_and_apply(  # noqa: C901
                     if mask is None:
                         mask = m
                     else:
-                        nplike.bitwise_or(mask, m, out=mask)
+                        mask = nplike.bitwise_or(mask, m)
 
             nextmask = ak.layout.Index8(mask.view(np.int8))
             index = nplike.full(len(mask), -1, dtype=np.int64)
-- 
2.43.0


From 46960bef4629579301f3e109c5250cc666a4ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:07 +0000
Subject: [PATCH 065/152] fix: validity errors of char and byte arrays that are
 not NumpyArrays

---
 src/libawkward/Content.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 7eae64e..c506283 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1769,7 +1769,7 @@ namespace awkward {
         // }
       }
       else {
-        return (std::string("at ") + path + std::string(" (") + raw->classname()
+        return (std::string("at ") + path + std::string(" (") + content.get()->classname()
                 + std::string("): __array__ = \"char\" only allowed for NumpyArray"));
       }
       return std::string("");
@@ -1824,7 +1824,7 @@ namespace awkward {
         // }
       }
       else {
-        return (std::string("at ") + path + std::string(" (") + raw->classname()
+        return (std::string("at ") + path + std::string(" (") + content.get()->classname()
                 + std::string("): __array__ = \"byte\" only allowed for NumpyArray"));
       }
       return std::string("");
-- 
2.43.0


From 3c3ff56b8b9d477b4129591236579c9f151b63d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:07 +0000
Subject: [PATCH 066/152] fix: combinations at axis=0 of option-type and
 indexed arrays yield valid arrays

---
 src/libawkward/Content.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index c506283..a55de12 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1366,11 +1366,12 @@ namespace awkward {
 
     ContentPtrVec contents;
     for (auto ptr : tocarry) {
-      contents.push_back(std::make_shared<IndexedArray64>(
+      IndexedArray64 indexed(
         Identities::none(),
         util::Parameters(),
         Index64(ptr, 0, combinationslen, kernel::lib::cpu),   // DERIVE
-        shallow_copy()));
+        shallow_copy());
+      contents.push_back(indexed.simplify_optiontype());
     }
     return std::make_shared<RecordArray>(Identities::none(),
                                          parameters,
-- 
2.43.0


From 4e87707c37d4842f113ef709dd35c93a70f48c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:07 +0000
Subject: [PATCH 067/152] fix: validity_error accepts a record

---
 src/awkward/operations/describe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/describe.py b/src/awkward/operations/describe.py
index 209be09..d53777f 100644
--- a/src/awkward/operations/describe.py
+++ b/src/awkward/operations/describe.py
@@ -51,11 +51,13 @@ def validity_error(array, exception=False):
     elif isinstance(array, ak.highlevel.ArrayBuilder):
         return validity_error(array.snapshot().layout, exception=exception)
 
+    elif isinstance(array, ak.layout.Record):
+        return validity_error(array.array, exception=exception)
+
     elif isinstance(
         array,
         (
             ak.layout.Content,
-            ak.layout.Record,
             ak.partition.PartitionedArray,
         ),
     ):
-- 
2.43.0


From 419bc9b157bfe4525b2fc07d72726bf5aa7b412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:07 +0000
Subject: [PATCH 068/152] fix: broadcast_arrays does not descend into strings

---
 src/awkward/operations/structure.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index d903da9..97e483a 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1396,7 +1396,14 @@ def broadcast_arrays(*arrays, **kwargs):
         inputs.append(y)
 
     def getfunction(inputs):
-        if all(isinstance(x, ak.layout.NumpyArray) and x.ndim == 1 for x in inputs):
+        if all(
+            (isinstance(x, ak.layout.NumpyArray) and x.ndim == 1)
+            or (
+                isinstance(x, ak._util.listtypes)
+                and x.parameter("__array__") in ("string", "bytestring")
+            )
+            for x in inputs
+        ):
             return lambda: tuple(inputs)
         else:
             return None
-- 
2.43.0


From feae83bb8bf30bad41cb7717db34510ed0b42fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:07 +0000
Subject: [PATCH 069/152] fix: cartesian at axis=0 yields valid arrays

---
 src/awkward/operations/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 97e483a..3b2a309 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -3334,7 +3334,7 @@ def cartesian(
             )
         ]
         outs = [
-            ak.layout.IndexedArray64(x, y)
+            ak.layout.IndexedArray64(x, y).simplify()
             for x, y in __builtins__["zip"](indexes, layouts)
         ]
 
-- 
2.43.0


From 3bfdd50ba3f454e82ee5dbb5b7a3b7d51dfe4e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:07 +0000
Subject: [PATCH 070/152] fix: nan_to_num leaves the characters of strings
 alone

---
 src/awkward/operations/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 3b2a309..cb5001c 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -4458,7 +4458,9 @@ def nan_to_num(
     nplike = ak.nplike.of(layout)
 
     def getfunction(layout):
-        if isinstance(layout, ak.layout.NumpyArray):
+        if layout.parameter("__array__") in ("char", "byte"):
+            return lambda: layout
+        elif isinstance(layout, ak.layout.NumpyArray):
             return lambda: ak.layout.NumpyArray(
                 nplike.nan_to_num(
                     nplike.asarray(layout),
-- 
2.43.0


From 2f2a34f98219795298263a2f8727661252904cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:08 +0000
Subject: [PATCH 071/152] fix: strings broadcast as strings beside lists and
 records

---
 src/awkward/_util.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index bfab2ff..f184920 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -540,7 +540,17 @@ def broadcast_and_apply(  # noqa: C901
                     + exception_suffix(__file__)
                 )
 
+    def has_custom_broadcast(x):
+        return (
+            isinstance(x, ak.layout.Content)
+            and custom_broadcast(x, behavior) is not None
+        )
+
     def all_same_offsets(nplike, inputs):
+        custom = [has_custom_broadcast(x) for x in inputs if isinstance(x, listtypes)]
+        if any(custom) and not all(custom):
+            return False
+
         offsets = None
         for x in inputs:
             if isinstance(
@@ -781,7 +791,14 @@ def broadcast_and_apply(  # noqa: C901
                 ak.layout.IndexedOptionArray64(index, x).simplify() for x in outcontent
             )
 
-        elif any(isinstance(x, listtypes) for x in inputs):
+        elif any(isinstance(x, listtypes) for x in inputs) and not (
+            any(isinstance(x, ak.layout.RecordArray) for x in inputs)
+            and all(
+                x.parameter("__array__") in ("string", "bytestring")
+                for x in inputs
+                if isinstance(x, listtypes)
+            )
+        ):
             if all(
                 isinstance(x, ak.layout.RegularArray) or not isinstance(x, listtypes)
                 for x in inputs
-- 
2.43.0


From e86789d070dfde3a41466c8d789b36b74ca89c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:08 +0000
Subject: [PATCH 072/152] fix: positional reducers over missing lists yield
 valid arrays

---
 src/libawkward/array/ByteMaskedArray.cpp | 9 +++++----
 src/libawkward/array/IndexedArray.cpp    | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index 904cb4b..fb5cf02 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -1209,14 +1209,15 @@ namespace awkward {
           outindex.length());
         util::handle_error(err4, classname(), identities_.get());
 
+        IndexedOptionArray64 outcontent(Identities::none(),
+                                        util::Parameters(),
+                                        outindex,
+                                        raw->content());
         return std::make_shared<ListOffsetArray64>(
           raw->identities(),
           raw->parameters(),
           outoffsets,
-          std::make_shared<IndexedOptionArray64>(Identities::none(),
-                                                 util::Parameters(),
-                                                 outindex,
-                                                 raw->content()));
+          outcontent.simplify_optiontype());
       }
       else {
         throw std::runtime_error(
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index bde6a5c..38a452e 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2276,14 +2276,15 @@ namespace awkward {
           outindex.length());
         util::handle_error(err4, classname(), identities_.get());
 
+        IndexedOptionArray64 outcontent(Identities::none(),
+                                        util::Parameters(),
+                                        outindex,
+                                        raw->content());
         return std::make_shared<ListOffsetArray64>(
           raw->identities(),
           raw->parameters(),
           outoffsets,
-          std::make_shared<IndexedOptionArray64>(Identities::none(),
-                                                 util::Parameters(),
-                                                 outindex,
-                                                 raw->content()));
+          outcontent.simplify_optiontype());
       }
       else {
         throw std::runtime_error(
-- 
2.43.0


From 056faee0a4fa850bed79929acb9191399a44e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:08 +0000
Subject: [PATCH 073/152] fix: selecting from missing records yields valid
 arrays

---
 src/libawkward/array/ByteMaskedArray.cpp | 3 ++-
 src/libawkward/array/UnmaskedArray.cpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index fb5cf02..7fb7c8e 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -792,10 +792,11 @@ namespace awkward {
     if (identities_.get() != nullptr) {
       identities = identities_.get()->getitem_carry_64(carry);
     }
+    // a lazy carry would put an IndexedArray inside this option-type
     return std::make_shared<ByteMaskedArray>(identities,
                                              parameters_,
                                              nextmask,
-                                             content_.get()->carry(carry, allow_lazy),
+                                             content_.get()->carry(carry, false),
                                              valid_when_);
   }
 
diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index cd0b0c4..39293cc 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -649,9 +649,10 @@ namespace awkward {
     if (identities_.get() != nullptr) {
       identities = identities_.get()->getitem_carry_64(carry);
     }
+    // a lazy carry would put an IndexedArray inside this option-type
     return std::make_shared<UnmaskedArray>(identities,
                                            parameters_,
-                                           content_.get()->carry(carry, allow_lazy));
+                                           content_.get()->carry(carry, false));
   }
 
   int64_t
-- 
2.43.0


From 0c40caa6378c78e61650837478ce14afbb28ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:08 +0000
Subject: [PATCH 074/152] fix: uniqueness of strings beyond 256 characters and
 of empty strings

---
 src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp | 2 +-
 src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp | 4 ++--
 src/libawkward/array/NumpyArray.cpp                         | 4 ----
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp b/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
index fe55538..d2498e0 100644
--- a/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
@@ -29,7 +29,7 @@ ERROR awkward_NumpyArray_sort_asstrings_uint8(
     int64_t stop = offsets[k + 1];
     int64_t slen = start;
     std::string strvar;
-    for (uint8_t i = (uint8_t)start;  slen < stop;  i++) {
+    for (int64_t i = start;  slen < stop;  i++) {
       slen++;
       strvar += (char)fromptr[i];
     }
diff --git a/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp b/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
index cbebea3..1f0565a 100644
--- a/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
@@ -20,7 +20,7 @@ ERROR awkward_NumpyArray_unique_strings_uint8(
 
   for (int64_t i = 0;  i < offsetslength - 1;  i++) {
     differ = false;
-    if (offsets[i + 1] - offsets[i] != slen) {
+    if (i == 0  ||  offsets[i + 1] - offsets[i] != slen) {
       differ = true;
     }
     else {
@@ -32,9 +32,9 @@ ERROR awkward_NumpyArray_unique_strings_uint8(
       }
     }
     if (differ) {
+      start = index;
       for (int64_t j = offsets[i]; j < offsets[i + 1]; j++) {
         toptr[index++] = toptr[j];
-        start = offsets[i];
      }
      counter++;
    }
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index e123aab..658dc59 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5656,10 +5656,6 @@ namespace awkward {
                             int64_t& outlength) const {
     std::shared_ptr<T> ptr = kernel::malloc<T>(kernel::lib::cpu,   // DERIVE
                                                length*((int64_t)sizeof(T)));
-    if (length == 0) {
-      return ptr;
-    }
-
     struct Error err1 = kernel::NumpyArray_sort_asstrings(
       kernel::lib::cpu,   // DERIVE
       ptr.get(),
-- 
2.43.0


From b24067a362c68120e0e2943eed15392781f893d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:08 +0000
Subject: [PATCH 075/152] fix: uniqueness of strided arrays

---
 src/libawkward/array/NumpyArray.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 658dc59..fc8a7ec 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -3797,6 +3797,9 @@ namespace awkward {
 
   const ContentPtr
   NumpyArray::as_unique_strings(const Index64& offsets) const {
+    if (!iscontiguous()) {
+      return contiguous().as_unique_strings(offsets);
+    }
     std::shared_ptr<Content> out;
     std::shared_ptr<void> ptr;
     int64_t offsets_length = offsets.length();
@@ -5927,6 +5930,9 @@ namespace awkward {
 
   const ContentPtr
   NumpyArray::unique_data() const {
+    if (!iscontiguous()) {
+      return contiguous().unique_data();
+    }
     Index64 starts(1);
     starts.setitem_at_nowrap(0, 0);
 
-- 
2.43.0


From 1c4b13a409b87047bb5ab5a8b2ce9cdb7ca8095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 076/152] fix: elementwise operations on partitioned arrays of
 unequal lengths, and with per-node state

---
 src/awkward/_util.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index f184920..9817b8b 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -1065,7 +1065,13 @@ def broadcast_and_apply(  # noqa: C901
                     break
                 purelist_depths.add(x.purelist_depth)
 
-        if purelist_isregular and len(purelist_depths) > 1:
+        lengths = set(
+            len(x)
+            for x in inputs
+            if isinstance(x, (ak.layout.Content, ak.partition.PartitionedArray))
+        )
+
+        if (purelist_isregular and len(purelist_depths) > 1) or len(lengths) > 1:
             nextinputs = []
             for x in inputs:
                 if isinstance(x, ak.partition.PartitionedArray):
@@ -1074,7 +1080,7 @@ def broadcast_and_apply(  # noqa: C901
                     nextinputs.append(x)
 
             isscalar = []
-            out = apply(broadcast_pack(nextinputs, isscalar), 0, None)
+            out = apply(broadcast_pack(nextinputs, isscalar), 0, user)
             assert isinstance(out, tuple)
             return tuple(broadcast_unpack(x, isscalar) for x in out)
 
@@ -1089,7 +1095,7 @@ def broadcast_and_apply(  # noqa: C901
             outputs = []
             for part_inputs in ak.partition.iterate(sample.numpartitions, nextinputs):
                 isscalar = []
-                part = apply(broadcast_pack(part_inputs, isscalar), 0, None)
+                part = apply(broadcast_pack(part_inputs, isscalar), 0, user)
                 assert isinstance(part, tuple)
                 outputs.append(tuple(broadcast_unpack(x, isscalar) for x in part))
 
-- 
2.43.0


From 012c6b05131055c6a43871f6e0cddfec106768d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 077/152] fix: to_categorical of a partitioned array

---
 src/awkward/behaviors/categorical.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/awkward/behaviors/categorical.py b/src/awkward/behaviors/categorical.py
index 85c7ec3..054ed92 100644
--- a/src/awkward/behaviors/categorical.py
+++ b/src/awkward/behaviors/categorical.py
@@ -296,7 +296,16 @@ def to_categorical(array, highlevel=True):
     layout = ak.operations.convert.to_layout(
         array, allow_record=False, allow_other=False
     )
-    out = ak._util.recursively_apply(layout, getfunction, pass_depth=False)
+    if isinstance(layout, ak.partition.PartitionedArray):
+        # all partitions share the same categories
+        out = ak.partition.IrregularlyPartitionedArray.toPartitioned(
+            ak._util.recursively_apply(
+                layout.toContent(), getfunction, pass_depth=False
+            ),
+            layout.stops,
+        )
+    else:
+        out = ak._util.recursively_apply(layout, getfunction, pass_depth=False)
     if highlevel:
         return ak._util.wrap(out, ak._util.behaviorof(array))
     else:
-- 
2.43.0


From d1ff59555cb88b098efea6af3da618f6189b9c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 078/152] fix: with_parameter of a partitioned array

---
 src/awkward/operations/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index cb5001c..f3b5a49 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1018,7 +1018,7 @@ def with_parameter(array, parameter, value, highlevel=True, behavior=None):
 
     if isinstance(layout, ak.partition.PartitionedArray):
         out = layout.replace_partitions(
-            x.withparameter(parameter, value) for x in layout.partitions
+            [x.withparameter(parameter, value) for x in layout.partitions]
         )
     else:
         out = layout.withparameter(parameter, value)
-- 
2.43.0


From 4f1af329d6304f0b44768e7caa97d541d5e8a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 079/152] fix: concatenate partitioned arrays of different
 types

---
 src/awkward/operations/structure.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index f3b5a49..eaa38f7 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1493,6 +1493,28 @@ def concatenate(
                     "axis={0}".format(axis) + ak._util.exception_suffix(__file__)
                 )
 
+    if posaxis == 0 and any(
+        isinstance(x, ak.partition.PartitionedArray) for x in contents
+    ):
+        parts = [
+            y
+            for x in contents
+            for y in ak.partition.every(
+                x
+                if isinstance(x, (ak.layout.Content, ak.partition.PartitionedArray))
+                else ak.operations.convert.to_layout([x])
+            )
+        ]
+        # (without materializing lazy partitions to find out their types)
+        if all(len(x.caches) == 0 for x in parts) and any(
+            x.type({}) != parts[0].type({}) for x in parts[1:]
+        ):
+            # partitions of one array must have the same type
+            contents = [
+                x.toContent() if isinstance(x, ak.partition.PartitionedArray) else x
+                for x in contents
+            ]
+
     if any(isinstance(x, ak.partition.PartitionedArray) for x in contents):
         if posaxis == 0:
             partitions = []
-- 
2.43.0


From 251ab2282212e965971eacf349ffc278812d2cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 080/152] fix: where with one argument ignores missing values
 in every layout

---
 src/awkward/operations/structure.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index eaa38f7..cfedb3e 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1770,17 +1770,6 @@ def where(condition, *args, **kwargs):
 
     if len(args) == 0:
         nplike = ak.nplike.of(akcondition)
-        if isinstance(akcondition, ak.partition.PartitionedArray):
-            akcondition = akcondition.replace_partitions(
-                [
-                    ak.layout.NumpyArray(ak.operations.convert.to_numpy(x))
-                    for x in akcondition.partitions
-                ]
-            )
-        else:
-            akcondition = ak.layout.NumpyArray(
-                ak.operations.convert.to_numpy(akcondition)
-            )
         out = nplike.nonzero(ak.operations.convert.to_numpy(akcondition))
         if highlevel:
             return tuple(
-- 
2.43.0


From 14e449fff86049fb60c26dd8f2c811a772fc7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 081/152] fix: repartition a zero-length array

---
 src/awkward/operations/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index cfedb3e..221f271 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -3966,6 +3966,8 @@ def repartition(array, lengths, highlevel=True, behavior=None):
                 lengths = [lengths] * howmany
             else:
                 lengths = [lengths] * howmany + [remainder]
+            if len(lengths) == 0:
+                lengths = [0]
 
         total_length = 0
         stops = []
-- 
2.43.0


From 4cb727c5d70d30a54eda8c227b48c28cef9cc72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 082/152] fix: repartitioning with empty partitions at the end
 read out of bounds

---
 src/libawkward/partition/IrregularlyPartitionedArray.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libawkward/partition/IrregularlyPartitionedArray.cpp b/src/libawkward/partition/IrregularlyPartitionedArray.cpp
index 1b02b02..f81da32 100644
--- a/src/libawkward/partition/IrregularlyPartitionedArray.cpp
+++ b/src/libawkward/partition/IrregularlyPartitionedArray.cpp
@@ -68,6 +68,10 @@ namespace awkward {
     if (stops == stops_) {
       return shallow_copy();
     }
+    if (stops.empty()) {
+      throw std::invalid_argument(
+        std::string("cannot repartition to zero partitions") + FILENAME(__LINE__));
+    }
     if (stops.back() != stops_.back()) {
       throw std::invalid_argument(
         std::string("cannot repartition array of length ")
@@ -85,6 +89,11 @@ namespace awkward {
 
       while (dst.get() == nullptr  ||  dst.get()->length() < length) {
         ContentPtr piece(nullptr);
+        if (partitionid >= numpartitions()) {
+          // everything has been distributed: only empty partitions are left
+          partitionid = numpartitions() - 1;
+          index = partitions_[(size_t)partitionid].get()->length();
+        }
         ContentPtr src = partitions_[(size_t)partitionid];
         int64_t available = src.get()->length() - index;
         int64_t desired = (dst.get() == nullptr ? length
-- 
2.43.0


From ab0ab856045ad5385b7b90aa4398cb73290ef06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 083/152] fix: values_astype of multidimensional NumPy arrays

---
 src/libawkward/array/NumpyArray.cpp | 30 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index fc8a7ec..ada1f22 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5160,6 +5160,10 @@ namespace awkward {
         strides.insert(strides.begin(), itemsize);
         itemsize *= shape[(size_t)(j - 1)];
       }
+      int64_t flatlength = 1;
+      for (ssize_t x : shape) {
+        flatlength *= (int64_t)x;
+      }
 
       IdentitiesPtr identities = contiguous_self.identities();
       if (contiguous_self.identities().get() != nullptr) {
@@ -5169,47 +5173,47 @@ namespace awkward {
       switch (dtype_) {
       case util::dtype::boolean:
         ptr = as_type<bool>(reinterpret_cast<bool*>(contiguous_self.data()),
-                            contiguous_self.length(),
+                            flatlength,
                             dtype);
         break;
       case util::dtype::int8:
         ptr = as_type<int8_t>(reinterpret_cast<int8_t*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              flatlength,
                               dtype);
         break;
       case util::dtype::int16:
         ptr = as_type<int16_t>(reinterpret_cast<int16_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::int32:
         ptr = as_type<int32_t>(reinterpret_cast<int32_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::int64:
         ptr = as_type<int64_t>(reinterpret_cast<int64_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::uint8:
         ptr = as_type<uint8_t>(reinterpret_cast<uint8_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::uint16:
         ptr = as_type<uint16_t>(reinterpret_cast<uint16_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::uint32:
         ptr = as_type<uint32_t>(reinterpret_cast<uint32_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::uint64:
         ptr = as_type<uint64_t>(reinterpret_cast<uint64_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::float16:
@@ -5219,12 +5223,12 @@ namespace awkward {
         break;
       case util::dtype::float32:
         ptr = as_type<float>(reinterpret_cast<float*>(contiguous_self.data()),
-                             contiguous_self.length(),
+                             flatlength,
                              dtype);
         break;
       case util::dtype::float64:
         ptr = as_type<double>(reinterpret_cast<double*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              flatlength,
                               dtype);
         break;
       case util::dtype::float128:
@@ -5234,12 +5238,12 @@ namespace awkward {
         break;
       case util::dtype::complex64:
         ptr = as_type<std::complex<float>>(reinterpret_cast<std::complex<float>*>(contiguous_self.data()),
-                                           contiguous_self.length(),
+                                           flatlength,
                                            dtype);
         break;
       case util::dtype::complex128:
         ptr = as_type<std::complex<double>>(reinterpret_cast<std::complex<double>*>(contiguous_self.data()),
-                                            contiguous_self.length(),
+                                            flatlength,
                                             dtype);
         break;
       case util::dtype::complex256:
-- 
2.43.0


From d834838e2e7c951db0979526614fedd5d70e120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 084/152] fix: var, std, covar, corr and softmax of regular
 arrays

---
 src/awkward/operations/reducers.py | 41 ++++++++++++++++++------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/awkward/operations/reducers.py b/src/awkward/operations/reducers.py
index a2aa0b3..98d38fc 100644
--- a/src/awkward/operations/reducers.py
+++ b/src/awkward/operations/reducers.py
@@ -950,6 +950,23 @@ def mean(x, weight=None, axis=None, keepdims=False, mask_identity=True):
         return ak.nplike.of(sumwx, sumw).true_divide(sumwx, sumw)
 
 
+def _broadcastable(reduced, axis):
+    # the reduced dimension was kept with length 1: it has to be regular for
+    # "reduced" to be broadcasted with the original array
+    if axis is not None and isinstance(reduced, ak.highlevel.Array):
+        posaxis = reduced.layout.axis_wrap_if_negative(axis)
+        if posaxis > 0:
+            return ak.operations.structure.to_regular(reduced, axis=posaxis)
+    return reduced
+
+
+def _broadcastable_mean(x, weight, axis, mask_identity):
+    return _broadcastable(
+        mean(x, weight=weight, axis=axis, keepdims=True, mask_identity=mask_identity),
+        axis,
+    )
+
+
 @ak._connect._numpy.implements("var")
 def var(x, weight=None, ddof=0, axis=None, keepdims=False, mask_identity=True):
     """
@@ -1000,9 +1017,7 @@ def var(x, weight=None, ddof=0, axis=None, keepdims=False, mask_identity=True):
     non-reducer.
     """
     with np.errstate(invalid="ignore"):
-        xmean = mean(
-            x, weight=weight, axis=axis, keepdims=keepdims, mask_identity=mask_identity
-        )
+        xmean = _broadcastable_mean(x, weight, axis, mask_identity)
         if weight is None:
             sumw = count(x, axis=axis, keepdims=keepdims, mask_identity=mask_identity)
             sumwxx = sum(
@@ -1127,12 +1142,8 @@ def covar(x, y, weight=None, axis=None, keepdims=False, mask_identity=True):
     non-reducer.
     """
     with np.errstate(invalid="ignore"):
-        xmean = mean(
-            x, weight=weight, axis=axis, keepdims=keepdims, mask_identity=mask_identity
-        )
-        ymean = mean(
-            y, weight=weight, axis=axis, keepdims=keepdims, mask_identity=mask_identity
-        )
+        xmean = _broadcastable_mean(x, weight, axis, mask_identity)
+        ymean = _broadcastable_mean(y, weight, axis, mask_identity)
         if weight is None:
             sumw = count(x, axis=axis, keepdims=keepdims, mask_identity=mask_identity)
             sumwxy = sum(
@@ -1198,12 +1209,8 @@ def corr(x, y, weight=None, axis=None, keepdims=False, mask_identity=True):
     non-reducer.
     """
     with np.errstate(invalid="ignore"):
-        xmean = mean(
-            x, weight=weight, axis=axis, keepdims=keepdims, mask_identity=mask_identity
-        )
-        ymean = mean(
-            y, weight=weight, axis=axis, keepdims=keepdims, mask_identity=mask_identity
-        )
+        xmean = _broadcastable_mean(x, weight, axis, mask_identity)
+        ymean = _broadcastable_mean(y, weight, axis, mask_identity)
         xdiff = x - xmean
         ydiff = y - ymean
         if weight is None:
@@ -1474,7 +1481,9 @@ def softmax(x, axis=None, keepdims=False, mask_identity=False):
     with np.errstate(invalid="ignore"):
         nplike = ak.nplike.of(x)
         expx = nplike.exp(x)
-        denom = sum(expx, axis=axis, keepdims=keepdims, mask_identity=mask_identity)
+        denom = _broadcastable(
+            sum(expx, axis=axis, keepdims=True, mask_identity=mask_identity), axis
+        )
         return nplike.true_divide(expx, denom)
 
 
-- 
2.43.0


From a389150948844779fc3d0c3162fee705617445ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 085/152] fix: to_numpy and from_numpy of records with missing
 fields

---
 src/awkward/operations/convert.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index bb4e273..a9a99d9 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -159,7 +159,10 @@ def from_numpy(
     else:
         contents = []
         for name in array.dtype.names:
-            contents.append(recurse(array[name], mask))
+            if isinstance(mask, np.ndarray) and mask.dtype.names is not None:
+                contents.append(recurse(array[name], mask[name]))
+            else:
+                contents.append(recurse(array[name], mask))
         layout = ak.layout.RecordArray(contents, array.dtype.names)
 
     if highlevel:
@@ -350,8 +353,12 @@ def to_numpy(array, allow_missing=True):
             len(contents[0]),
             dtype=[(str(n), x.dtype) for n, x in zip(array.keys(), contents)],
         )
+        if any(isinstance(x, numpy.ma.MaskedArray) for x in contents):
+            out = numpy.ma.array(out, mask=False)
+            for n, x in zip(array.keys(), contents):
+                out.mask[n] = numpy.ma.getmaskarray(x)
         for n, x in zip(array.keys(), contents):
-            out[n] = x
+            numpy.ma.getdata(out)[n] = numpy.ma.getdata(x)
         return out
 
     elif isinstance(array, ak.layout.NumpyArray):
-- 
2.43.0


From 6303ca682e5fd735be702f847caf7d8644ad1e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 086/152] fix: to_numpy of a lazy array with missing values
 honors allow_missing

---
 src/awkward/operations/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index a9a99d9..332e38a 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -249,7 +249,7 @@ def to_numpy(array, allow_missing=True):
             return numpy.concatenate(tocat)
 
     elif isinstance(array, ak._util.virtualtypes):
-        return to_numpy(array.array, allow_missing=True)
+        return to_numpy(array.array, allow_missing=allow_missing)
 
     elif isinstance(array, ak._util.unknowntypes):
         return numpy.array([])
-- 
2.43.0


From 5da33b2d09a069afd391e1f74f66021afa9ca934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 087/152] fix: to_numpy and to_pandas of records shorter than
 their fields

---
 src/awkward/operations/convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 332e38a..8dcc50f 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -341,7 +341,7 @@ def to_numpy(array, allow_missing=True):
         if array.numfields == 0:
             return numpy.empty(len(array), dtype=[])
         contents = [
-            to_numpy(array.field(i), allow_missing=allow_missing)
+            to_numpy(array.field(i)[: len(array)], allow_missing=allow_missing)
             for i in range(array.numfields)
         ]
         if any(len(x.shape) != 1 for x in contents):
@@ -5305,7 +5305,7 @@ or
             else:
                 return sum(
                     [
-                        recurse(layout.field(n), row_arrays, col_names + (n,))
+                        recurse(layout.field(n)[: len(layout)], row_arrays, col_names + (n,))
                         for n in layout.keys()
                     ],
                     [],
@@ -5314,7 +5314,7 @@ or
         elif isinstance(layout, ak.layout.RecordArray):
             return sum(
                 [
-                    recurse(layout.field(n), row_arrays, col_names + (n,))
+                    recurse(layout.field(n)[: len(layout)], row_arrays, col_names + (n,))
                     for n in layout.keys()
                 ],
                 [],
-- 
2.43.0


From 4462f15531cfbfa69b583041dcaa77a57c4a8770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 088/152] fix: concatenating the partitions of regular arrays
 keeps them regular

---
 src/awkward/partition.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index b449b16..94e0ce4 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -156,13 +156,35 @@ class PartitionedArray(object):
         return self._ext.stop(partitionid)
 
     def toContent(self):
-        contents = self._ext.partitions
+        return self._concatenate(self._ext.partitions)
+
+    def _concatenate(self, contents):
         if len(contents) == 1:
             return contents[0]
 
+        # merging regular arrays would turn them into variable-length lists
+        contents = [
+            x.toRegularArray()
+            if isinstance(x, ak.layout.NumpyArray) and x.ndim > 1
+            else x
+            for x in contents
+        ]
+        if all(
+            isinstance(x, ak.layout.RegularArray)
+            and x.size == contents[0].size
+            and x.parameters == contents[0].parameters
+            for x in contents
+        ):
+            return ak.layout.RegularArray(
+                self._concatenate([x.content[: x.size * len(x)] for x in contents]),
+                contents[0].size,
+                sum(len(x) for x in contents),
+                parameters=contents[0].parameters,
+            )
+
         batch = [contents[0]]
         for x in contents[1:]:
-            if batch[-1].mergeable(x, mergebool=False):
+            if all(y.mergeable(x, mergebool=False) for y in batch):
                 batch.append(x)
             else:
                 collapsed = batch[0].mergemany(batch[1:])
-- 
2.43.0


From 07583a088dcead106fb3d7342227ee722a319e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 089/152] fix: array-valued slices of partitioned arrays

---
 src/awkward/partition.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 94e0ce4..0978847 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -361,6 +361,11 @@ class PartitionedArray(object):
                     numpytype=(np.integer, np.bool_),
                 )
 
+                if isinstance(
+                    layout, (ak.layout.EmptyArray, ak.layout.RegularArray)
+                ) or (isinstance(layout, ak.layout.NumpyArray) and layout.ndim > 1):
+                    return self.toContent()[where]
+
                 t = ak.operations.describe.type(layout)
                 int_types = [
                     ak.types.PrimitiveType("int8"),
-- 
2.43.0


From 25e774abcfcb3f85c52762e64ba71798ea6ae4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 090/152] fix: reducers of partitioned arrays pass initial and
 combine records

---
 src/awkward/partition.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 0978847..66191fe 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -590,19 +590,21 @@ class PartitionedArray(object):
         return out
 
     def reduce(self, name, axis, mask, keepdims, initial=None):
+        args = (axis, mask, keepdims)
+        if initial is not None:
+            args = args + (initial,)
+
         branch, depth = first(self).branch_depth
         negaxis = -axis
         if not branch and negaxis <= 0:
             negaxis += depth
-        if not branch and negaxis == depth:
-            if initial is None:
-                return getattr(self.toContent(), name)(axis, mask, keepdims)
-            else:
-                return getattr(self.toContent(), name)(axis, mask, keepdims, initial)
-        else:
-            return self.replace_partitions(
-                [getattr(x, name)(axis, mask, keepdims) for x in self.partitions]
-            )
+        if not branch and negaxis != depth:
+            output = [getattr(x, name)(*args) for x in self.partitions]
+            # (records are reduced to one record, whatever the axis)
+            if all(isinstance(x, ak.layout.Content) for x in output):
+                return self.replace_partitions(output)
+
+        return getattr(self.toContent(), name)(*args)
 
     def count(self, axis, mask, keepdims):
         return self.reduce("count", axis, mask, keepdims)
-- 
2.43.0


From 6fb2e721512541b4a778b7be64e368f3da7dfeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 091/152] fix: is_unique of a partitioned array compares the
 partitions with each other

---
 src/awkward/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 66191fe..26fa427 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -687,7 +687,7 @@ class PartitionedArray(object):
         )
 
     def is_unique(self):
-        return all([x.is_unique() for x in self.partitions])
+        return self.toContent().is_unique()
 
     def copy_to(self, ptr_lib):
         return self.from_ext(self._ext.copy_to(ptr_lib))
-- 
2.43.0


From b97888e94c918ea48a375a3c49f3c27de2c333b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:03 +0000
Subject: [PATCH 092/152] fix: operations on partitioned arrays of records
 whose negative axis is the partitioned one

---
 src/awkward/partition.py | 58 ++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 26fa427..df9f2f3 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -516,26 +516,21 @@ class PartitionedArray(object):
     def fillna(self, what):
         return self.replace_partitions([x.fillna(what) for x in self.partitions])
 
+    def _crosses_partitions(self, axis):
+        # records whose fields have different depths: a negative axis is a
+        # different axis in each field, and it may be the outermost one
+        branch, depth = first(self).branch_depth
+        if axis < 0 and branch:
+            return True
+        return axis == 0 or axis + depth == 0
+
     def num(self, axis):
-        if first(self).axis_wrap_if_negative(axis) == 0:
+        if self._crosses_partitions(axis):
             prepared = [x.num(axis) for x in self.partitions]
-            if any(isinstance(x, ak.layout.Record) for x in prepared):
-                names = None
-                counts = None
-                for x in prepared:
-                    assert isinstance(x, ak.layout.Record)
-                    n = ak.operations.describe.fields(x)
-                    c = ak.operations.structure.unzip(x)
-                    if names is None:
-                        names, counts = n, list(c)
-                    else:
-                        assert n == names
-                        for i, ci in enumerate(c):
-                            counts[i] += ci
-                arraycounts = [ak.layout.NumpyArray(numpy.array([x])) for x in counts]
-                return ak.layout.Record(ak.layout.RecordArray(arraycounts, names), 0)
-            else:
+            if all(isinstance(x, (numbers.Integral, np.integer)) for x in prepared):
                 return sum(prepared)
+            else:
+                return self.toContent().num(axis)
         else:
             return self.replace_partitions([x.num(axis) for x in self.partitions])
 
@@ -546,7 +541,7 @@ class PartitionedArray(object):
         return self.toContent().offsets_and_flatten(axis)
 
     def rpad(self, length, axis):
-        if first(self).axis_wrap_if_negative(axis) == 0:
+        if self._crosses_partitions(axis):
             return self.toContent().rpad(length, axis)
         else:
             return self.replace_partitions(
@@ -554,7 +549,7 @@ class PartitionedArray(object):
             )
 
     def rpad_and_clip(self, length, axis):
-        if first(self).axis_wrap_if_negative(axis) == 0:
+        if self._crosses_partitions(axis):
             return self.toContent().rpad_and_clip(length, axis)
         else:
             return self.replace_partitions(
@@ -637,7 +632,7 @@ class PartitionedArray(object):
         return self.reduce("argmax", axis, mask, keepdims)
 
     def localindex(self, axis):
-        if first(self).axis_wrap_if_negative(axis) == 0:
+        if axis == 0:
             start = 0
             output = []
             for x in self.partitions:
@@ -649,13 +644,16 @@ class PartitionedArray(object):
                 start += len(x)
             return self.replace_partitions(output)
 
+        elif self._crosses_partitions(axis):
+            return self.toContent().localindex(axis)
+
         else:
             return self.replace_partitions(
                 [x.localindex(axis) for x in self.partitions]
             )
 
     def combinations(self, n, replacement, keys, parameters, axis):
-        if first(self).axis_wrap_if_negative(axis) == 0:
+        if self._crosses_partitions(axis):
             return self.toContent().combinations(n, replacement, keys, parameters, axis)
         else:
             return self.replace_partitions(
@@ -666,20 +664,22 @@ class PartitionedArray(object):
             )
 
     def sort(self, axis, ascending, stable):
-        if first(self).axis_wrap_if_negative(axis) == 0:
+        if self._crosses_partitions(axis):
             return self.toContent().sort(axis, ascending, stable)
         else:
-            return self.replace_partitions(
-                [x.sort(axis, ascending, stable) for x in self.partitions]
-            )
+            output = [x.sort(axis, ascending, stable) for x in self.partitions]
+            if not all(isinstance(x, ak.layout.Content) for x in output):
+                return self.toContent().sort(axis, ascending, stable)
+            return self.replace_partitions(output)
 
     def argsort(self, axis, ascending, stable):
-        if first(self).axis_wrap_if_negative(axis) == 0:
+        if self._crosses_partitions(axis):
             return self.toContent().argsort(axis, ascending, stable)
         else:
-            return self.replace_partitions(
-                [x.argsort(axis, ascending, stable) for x in self.partitions]
-            )
+            output = [x.argsort(axis, ascending, stable) for x in self.partitions]
+            if not all(isinstance(x, ak.layout.Content) for x in output):
+                return self.toContent().argsort(axis, ascending, stable)
+            return self.replace_partitions(output)
 
     def numbers_to_type(self, dtype_string):
         return self.replace_partitions(
-- 
2.43.0


From f7e458eff4c31b31cf3e25eab5ecd96c9b6fe227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:41 +0000
Subject: [PATCH 093/152] fix: ptp without masking of a one-dimensional array

---
 src/awkward/operations/reducers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/reducers.py b/src/awkward/operations/reducers.py
index 98d38fc..0bdecf9 100644
--- a/src/awkward/operations/reducers.py
+++ b/src/awkward/operations/reducers.py
@@ -666,7 +666,7 @@ def ptp(arr, axis=None, keepdims=False, mask_identity=True):
     ptp = ak.max(arr, axis=axis, keepdims=keepdims) - ak.min(
         arr, axis=axis, keepdims=keepdims
     )
-    if not mask_identity:
+    if not mask_identity and isinstance(ptp, (ak.highlevel.Array, ak.highlevel.Record)):
         return ak.fill_none(ptp, 0)
     return ptp
 
-- 
2.43.0


From 91c4dedb873ce1f3527583097d51152304c92c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:34 +0000
Subject: [PATCH 094/152] fix: inequality of bytestring characters

---
 src/awkward/behaviors/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/behaviors/string.py b/src/awkward/behaviors/string.py
index b00b8e7..cc40509 100644
--- a/src/awkward/behaviors/string.py
+++ b/src/awkward/behaviors/string.py
@@ -34,7 +34,7 @@ class ByteBehavior(ak.highlevel.Array):
             return False
 
     def __ne__(self, other):
-        return not self.__eq__(self, other)
+        return not self.__eq__(other)
 
     def __add__(self, other):
         if isinstance(other, (bytes, ByteBehavior)):
-- 
2.43.0


From c53839993e6be89b8777e127996ce3a507e530f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:35 +0000
Subject: [PATCH 095/152] fix: element-wise operations on categoricals with
 missing values

---
 src/awkward/behaviors/categorical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/awkward/behaviors/categorical.py b/src/awkward/behaviors/categorical.py
index 054ed92..c2e5840 100644
--- a/src/awkward/behaviors/categorical.py
+++ b/src/awkward/behaviors/categorical.py
@@ -104,6 +104,10 @@ def _apply_ufunc(ufunc, method, inputs, kwargs):
             nextinputs.append(
                 ak.highlevel.Array(x.layout.project(), behavior=ak._util.behaviorof(x))
             )
+        elif isinstance(x, ak.highlevel.Array) and isinstance(
+            x.layout, ak._util.indexedoptiontypes
+        ):
+            nextinputs.append(from_categorical(x))
         else:
             nextinputs.append(x)
 
-- 
2.43.0


From b6d100d7fe21aa99fb5b121781273aa0d33f3cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:35 +0000
Subject: [PATCH 096/152] fix: records, lists and booleans as categories

---
 src/awkward/behaviors/categorical.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/awkward/behaviors/categorical.py b/src/awkward/behaviors/categorical.py
index c2e5840..fcce5fe 100644
--- a/src/awkward/behaviors/categorical.py
+++ b/src/awkward/behaviors/categorical.py
@@ -18,7 +18,7 @@ class _HashableDict(object):
     def __init__(self, obj):
         self.keys = tuple(sorted(obj))
         self.values = tuple(_hashable(obj[k]) for k in self.keys)
-        self.hash = hash((_HashableDict,) + self.keys, self.values)
+        self.hash = hash((_HashableDict, self.keys, self.values))
 
     def __hash__(self):
         return self.hash
@@ -33,7 +33,7 @@ class _HashableDict(object):
 
 class _HashableList(object):
     def __init__(self, obj):
-        self.values = tuple(obj)
+        self.values = tuple(_hashable(x) for x in obj)
         self.hash = hash((_HashableList,) + self.values)
 
     def __hash__(self):
@@ -259,7 +259,8 @@ def to_categorical(array, highlevel=True):
                 cls = ak.layout.IndexedArray64
 
             content_list = ak.operations.convert.to_list(content)
-            hashable = [_hashable(x) for x in content_list]
+            # (True and 1 are different values)
+            hashable = [(type(x), _hashable(x)) for x in content_list]
 
             lookup = {}
             is_first = ak.nplike.numpy.empty(len(hashable), dtype=np.bool_)
@@ -291,7 +292,10 @@ def to_categorical(array, highlevel=True):
             else:
                 index = ak.layout.Index64(mapping)
 
-            out = cls(index, content[is_first], parameters={"__array__": "categorical"})
+            content = content[is_first]
+            if isinstance(content, ak._util.indexedtypes):
+                content = content.project()
+            out = cls(index, content, parameters={"__array__": "categorical"})
             return lambda: out
 
         else:
-- 
2.43.0


From 0c57f5cc7c669c082355b1d54470c41c88f28a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:05 +0000
Subject: [PATCH 097/152] fix: an array of floats is not an index

---
 src/python/content.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/content.cpp b/src/python/content.cpp
index 5da59d3..c8121c6 100644
--- a/src/python/content.cpp
+++ b/src/python/content.cpp
@@ -635,8 +635,7 @@ toslice_part(ak::Slice& slice, py::object obj) {
           }
           std::string format(info.format);
           format.erase(0, format.find_first_not_of("@=<>!"));
-          if (py::isinstance<py::array>(obj) &&
-              !ak::util::is_integer(
+          if (!ak::util::is_integer(
                 ak::util::format_to_dtype(format, (int64_t)info.itemsize))  &&
               flatlen != 0) {
             throw std::invalid_argument(
-- 
2.43.0


From be47a81fc7b8e37b6fb6959172917fbfaaf1c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:05 +0000
Subject: [PATCH 098/152] fix: a lazy array as an index is read before it is
 interpreted

---
 src/python/content.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/content.cpp b/src/python/content.cpp
index c8121c6..d2b1565 100644
--- a/src/python/content.cpp
+++ b/src/python/content.cpp
@@ -531,6 +531,10 @@ toslice_part(ak::Slice& slice, py::object obj) {
         }
         else {
           content = unbox_content(tmp);
+          if (ak::VirtualArray* raw
+                = dynamic_cast<ak::VirtualArray*>(content.get())) {
+            content = raw->array();
+          }
         }
       }
       else if (py::isinstance(obj, py::module::import("awkward")
-- 
2.43.0


From 98cd6038520325f4abe59c250fd7c80fb8122622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:05 +0000
Subject: [PATCH 099/152] fix: a lazy array has the length it was declared with

---
 src/libawkward/virtual/ArrayGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libawkward/virtual/ArrayGenerator.cpp b/src/libawkward/virtual/ArrayGenerator.cpp
index eedb888..a61ef85 100644
--- a/src/libawkward/virtual/ArrayGenerator.cpp
+++ b/src/libawkward/virtual/ArrayGenerator.cpp
@@ -48,6 +48,9 @@ namespace awkward {
     if (form_.get() == nullptr) {
       inferred_form_ = out.get()->form(true);
     }
+    if (length_ >= 0  &&  length_ < out.get()->length()) {
+      return out.get()->getitem_range_nowrap(0, length_);
+    }
     return out;
   }
 
-- 
2.43.0


From fa5614459555e8b272962008f5c583fb412a0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:05 +0000
Subject: [PATCH 100/152] fix: missing fields of records in unions to pandas

---
 src/awkward/_util.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 9817b8b..a86686f 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -1787,10 +1787,11 @@ def union_to_record(unionarray, anonymous):
                     seen.add(anonymous)
                     all_names.append(anonymous)
 
-        missingarray = ak.layout.IndexedOptionArray64(
-            ak.layout.Index64(nplike.full(len(unionarray), -1, dtype=np.int64)),
-            ak.layout.EmptyArray(),
-        )
+        def missingarray(length):
+            return ak.layout.IndexedOptionArray64(
+                ak.layout.Index64(nplike.full(length, -1, dtype=np.int64)),
+                ak.layout.EmptyArray(),
+            )
 
         all_fields = []
         for name in all_names:
@@ -1802,12 +1803,12 @@ def union_to_record(unionarray, anonymous):
                             union_contents.append(layout.field(key))
                             break
                     else:
-                        union_contents.append(missingarray)
+                        union_contents.append(missingarray(len(layout)))
                 else:
                     if name == anonymous:
                         union_contents.append(layout)
                     else:
-                        union_contents.append(missingarray)
+                        union_contents.append(missingarray(len(layout)))
 
             all_fields.append(
                 make_union(
-- 
2.43.0


From 42a588bf704d8370a8c1ba16146220e814575b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:05 +0000
Subject: [PATCH 101/152] fix: to_categorical of lazy, all-missing and masked
 arrays

---
 src/awkward/behaviors/categorical.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/awkward/behaviors/categorical.py b/src/awkward/behaviors/categorical.py
index fcce5fe..ac8c677 100644
--- a/src/awkward/behaviors/categorical.py
+++ b/src/awkward/behaviors/categorical.py
@@ -242,6 +242,9 @@ def to_categorical(array, highlevel=True):
 
     def getfunction(layout):
         if layout.purelist_depth == 1:
+            if isinstance(layout, ak._util.virtualtypes):
+                layout = layout.array
+
             if isinstance(layout, ak._util.optiontypes):
                 layout = layout.simplify()
 
@@ -252,7 +255,7 @@ def to_categorical(array, highlevel=True):
                 content = layout.content
                 cls = ak.layout.IndexedArray64
             elif isinstance(layout, ak._util.optiontypes):
-                content = layout.content
+                content = layout.content[: len(layout)]
                 cls = ak.layout.IndexedOptionArray64
             else:
                 content = layout
@@ -276,8 +279,9 @@ def to_categorical(array, highlevel=True):
 
             if isinstance(layout, ak._util.indexedoptiontypes):
                 original_index = ak.nplike.numpy.asarray(layout.index)
-                index = mapping[original_index]
-                index[original_index < 0] = -1
+                index = ak.nplike.numpy.full(len(original_index), -1, dtype=np.int64)
+                present = original_index >= 0
+                index[present] = mapping[original_index[present]]
                 index = ak.layout.Index64(index)
 
             elif isinstance(layout, ak._util.indexedtypes):
-- 
2.43.0


From 7a9718c9f0bc98762e673ed7837bef1b6d8a7fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:05 +0000
Subject: [PATCH 102/152] fix: to_arrow of masked lazy arrays and of strided
 arrays

---
 src/awkward/operations/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 8dcc50f..f2103f6 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2044,6 +2044,8 @@ def to_arrow(
                         is_option,
                     )
 
+            numpy_arr = numpy.ascontiguousarray(numpy_arr)
+
             if numpy_arr.ndim == 1:
                 if mask is not None:
                     return pyarrow.Array.from_buffers(
@@ -2492,7 +2494,7 @@ def to_arrow(
             return recurse(layout.content, None, True)
 
         elif isinstance(layout, (ak.layout.VirtualArray)):
-            return recurse(layout.array, None, False)
+            return recurse(layout.array, mask, is_option)
 
         elif isinstance(layout, (ak.partition.PartitionedArray)):
             return pyarrow.chunked_array(
-- 
2.43.0


From 98c99f1cdc3d866d29299ea6d7f3ecc8d44ed734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:05 +0000
Subject: [PATCH 103/152] fix: cartesian of lazy strings

---
 src/awkward/operations/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 221f271..b2b2a23 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -3406,6 +3406,8 @@ def cartesian(
                 if depth == posaxis:
                     inside = len(new_arrays) - i - 1
                     outside = i
+                    if isinstance(layout, ak._util.virtualtypes):
+                        layout = layout.array
                     if (
                         layout.parameter("__array__") == "string"
                         or layout.parameter("__array__") == "bytestring"
-- 
2.43.0


From e1f23fc74d49ec9b3c966181c296f9ab99b191f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:05 +0000
Subject: [PATCH 104/152] fix: run_lengths of lazy arrays

---
 src/awkward/operations/structure.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index b2b2a23..aad25c1 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -364,9 +364,14 @@ def run_lengths(array, highlevel=True, behavior=None):
             return nextcontent, nextoffsets
 
     def getfunction(layout):
+        if isinstance(layout, ak._util.virtualtypes):
+            layout = layout.array
+
         if layout.branch_depth == (False, 1):
             if isinstance(layout, ak._util.indexedtypes):
                 layout = layout.project()
+                if isinstance(layout, ak._util.virtualtypes):
+                    layout = layout.array
 
             if (
                 layout.parameter("__array__") == "string"
@@ -396,14 +401,20 @@ def run_lengths(array, highlevel=True, behavior=None):
                     + ak._util.exception_suffix(__file__)
                 )
 
-            if (
-                layout.content.parameter("__array__") == "string"
-                or layout.content.parameter("__array__") == "bytestring"
+            if layout.content.purelist_parameter("__array__") in (
+                "string",
+                "bytestring",
             ):
                 listoffsetarray = layout.toListOffsetArray64(False)
                 offsets = nplike.asarray(listoffsetarray.offsets)
                 content = listoffsetarray.content[offsets[0] : offsets[-1]]
 
+                if isinstance(content, ak._util.indexedtypes):
+                    content = content.project()
+
+                if isinstance(content, ak._util.virtualtypes):
+                    content = content.array
+
                 if isinstance(content, ak._util.indexedtypes):
                     content = content.project()
 
@@ -418,6 +429,12 @@ def run_lengths(array, highlevel=True, behavior=None):
             offsets = nplike.asarray(listoffsetarray.offsets)
             content = listoffsetarray.content[offsets[0] : offsets[-1]]
 
+            if isinstance(content, ak._util.indexedtypes):
+                content = content.project()
+
+            if isinstance(content, ak._util.virtualtypes):
+                content = content.array
+
             if isinstance(content, ak._util.indexedtypes):
                 content = content.project()
 
-- 
2.43.0


From bf930d78ba2ae5488ce9f06bfe5cc212849e8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:28 +0000
Subject: [PATCH 105/152] fix: slicing with index arrays of three or more
 dimensions

---
 src/cpu-kernels/awkward_slicearray_ravel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_slicearray_ravel.cpp b/src/cpu-kernels/awkward_slicearray_ravel.cpp
index b4196e8..1923a08 100644
--- a/src/cpu-kernels/awkward_slicearray_ravel.cpp
+++ b/src/cpu-kernels/awkward_slicearray_ravel.cpp
@@ -17,10 +17,14 @@ ERROR awkward_slicearray_ravel(
     }
   }
   else {
+    int64_t size = 1;
+    for (int64_t d = 1;  d < ndim;  d++) {
+      size *= shape[d];
+    }
     for (T i = 0;  i < shape[0];  i++) {
       ERROR err =
         awkward_slicearray_ravel<T>(
-          &toptr[i*shape[1]],
+          &toptr[i*size],
           &fromptr[i*strides[0]],
           ndim - 1,
           &shape[1],
-- 
2.43.0


From fbb70a0f739e4e2c11fbb10b2f19eb69fd1375b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:28 +0000
Subject: [PATCH 106/152] fix: argmin and argmax of complex numbers

---
 src/cpu-kernels/awkward_reduce_argmax_complex.cpp | 6 +++---
 src/cpu-kernels/awkward_reduce_argmin_complex.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
index 37069b7..e281bb7 100644
--- a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmax_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] > fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] > fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] > fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] > fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
diff --git a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
index 711c050..a106410 100644
--- a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmin_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] < fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] < fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] < fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] < fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
-- 
2.43.0


From 9ad653c6feca51051b5fa09655d76766c55143cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:28 +0000
Subject: [PATCH 107/152] fix: max of complex numbers does not start at zero

---
 src/libawkward/Reducer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Reducer.cpp b/src/libawkward/Reducer.cpp
index 637ba3f..33d25d1 100644
--- a/src/libawkward/Reducer.cpp
+++ b/src/libawkward/Reducer.cpp
@@ -2334,7 +2334,7 @@ namespace awkward {
     kernel::lib ptr_lib = kernel::lib::cpu;   // DERIVE
     std::shared_ptr<std::complex<float>> ptr = kernel::malloc<std::complex<float>>(
       ptr_lib, outlength*(int64_t)sizeof(std::complex<float>));
-    float initial = 0;
+    float initial = -std::numeric_limits<float>::infinity();
     if (has_initial_) {
       initial = (float)initial_f64_;
     }
@@ -2357,7 +2357,7 @@ namespace awkward {
     kernel::lib ptr_lib = kernel::lib::cpu;   // DERIVE
     std::shared_ptr<std::complex<double>> ptr = kernel::malloc<std::complex<double>>(
       ptr_lib, outlength*(int64_t)sizeof(std::complex<double>));
-    double initial = 0;
+    double initial = -std::numeric_limits<double>::infinity();
     if (has_initial_) {
       initial = (double)initial_f64_;
     }
-- 
2.43.0


From 306600d489a3a5f22ad57a640388107dd47d889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:28 +0000
Subject: [PATCH 108/152] fix: overlay_mask of an unsigned index keeps missing
 values

---
 src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp b/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
index de98cec..2e4b2e5 100644
--- a/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
+++ b/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
@@ -12,7 +12,7 @@ ERROR awkward_IndexedArray_overlay_mask(
   int64_t length) {
   for (int64_t i = 0;  i < length;  i++) {
     M m = mask[i];
-    toindex[i] = (m ? -1 : fromindex[i]);
+    toindex[i] = (m ? (TO)-1 : (TO)fromindex[i]);
   }
   return success();
 }
-- 
2.43.0


From 96089bd52ce6607948c66812c2583378e138293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:28 +0000
Subject: [PATCH 109/152] fix: kernel-specification definitions that did not
 match their kernels

---
 kernel-specification.yml | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kernel-specification.yml b/kernel-specification.yml
index 726c7d3..dbad2d1 100644
--- a/kernel-specification.yml
+++ b/kernel-specification.yml
@@ -1615,10 +1615,10 @@ kernels:
               stride = fromstops[i] - fromstarts[i]
               tostarts[i] = k
               for j in range(stride):
-                  if index[fromstarts[i] + j] > 0:
+                  if index[fromstarts[i] + j] >= 0:
                       k = k + 1
               tostops[i] = k
-          tolength = k
+          tolength[0] = k
     automatic-tests: false
     manual-tests: []
 
@@ -1655,7 +1655,7 @@ kernels:
           for i in range(length):
               stride = fromstops[i] - fromstarts[i]
               for j in range(stride):
-                  if index[fromstarts[i] + j] > 0:
+                  if index[fromstarts[i] + j] >= 0:
                       tocarry[k] = index[fromstarts[i] + j]
                       k = k + 1
     automatic-tests: false
@@ -2183,7 +2183,7 @@ kernels:
                   if slicestop > missinglength:
                       raise ValueError("jagged slice's offsets extend beyond its content")
                   for j in range(slicestart, slicestop):
-                      numvalid[0] = numvalid[0] + 1 if missing[j] >= 0 else 0
+                      numvalid[0] = numvalid[0] + (1 if missing[j] >= 0 else 0)
     automatic-tests: false
     manual-tests: []
 
@@ -4489,7 +4489,7 @@ kernels:
           - {name: tooffset, type: "int64_t", dir: in, role: IndexedArray-index-offset}
           - {name: fromptr, type: "Const[List[int64_t]]", dir: in, role: NumpyArray-ptr}
           - {name: length, type: "int64_t", dir: in, role: default}
-          - {name: scale, type: "float", dir: in, role: default}
+          - {name: scale, type: "double", dir: in, role: default}
     description: null
     definition: |
       def awkward_NumpyArray_fill_scaled(toptr, tooffset, fromptr, length, scale):
@@ -6244,7 +6244,7 @@ kernels:
           for i in range(repetitions):
               for j in range(indexlength):
                   base = index[j]
-                  outindex[(i * indexlength) + j] = base + i * regularsize if base >= 0 else 0
+                  outindex[(i * indexlength) + j] = base + (i * regularsize if base >= 0 else 0)
     automatic-tests: true
     manual-tests: []
 
-- 
2.43.0


From e463e1d3d67805a646ee5fa0dae02c141a839136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:48 +0000
Subject: [PATCH 110/152] fix: only the outermost dimension of a parsed
 high-level type is an array length

---
 src/awkward/_typeparser/parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/awkward/_typeparser/parser.py b/src/awkward/_typeparser/parser.py
index 402f3b5..04b0288 100644
--- a/src/awkward/_typeparser/parser.py
+++ b/src/awkward/_typeparser/parser.py
@@ -259,10 +259,6 @@ def toast(ptnode, high_level, categorical):
         return toast(ptnode.children[0], high_level, categorical)
     elif ptnode.data == "regular_inparm":
         assert len(ptnode.children) == 2
-        if high_level:
-            return ak.types.ArrayType(
-                toast(ptnode.children[1], high_level, categorical), ptnode.children[0]
-            )
         return ak.types.RegularType(
             toast(ptnode.children[1], high_level, categorical), ptnode.children[0]
         )
@@ -289,4 +285,11 @@ def toast(ptnode, high_level, categorical):
 
 def from_datashape(typestr, high_level=False):
     parseobj = Lark_StandAlone(transformer=TreeToJson())
-    return toast(parseobj.parse(typestr), high_level, False)
+    ptnode = parseobj.parse(typestr)
+    out = toast(ptnode, high_level, False)
+    while ptnode.data in ("start", "input", "regular"):
+        ptnode = ptnode.children[0]
+    if high_level and ptnode.data == "regular_inparm":
+        # only the outermost dimension is the length of the array
+        return ak.types.ArrayType(out.type, out.size)
+    return out
-- 
2.43.0


From 7a785625c99edbdf0b19c64d7bb23ffcda4a6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:48 +0000
Subject: [PATCH 111/152] fix: the type parser unescapes strings

---
 src/awkward/_typeparser/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/awkward/_typeparser/parser.py b/src/awkward/_typeparser/parser.py
index 04b0288..8d44b15 100644
--- a/src/awkward/_typeparser/parser.py
+++ b/src/awkward/_typeparser/parser.py
@@ -2,6 +2,7 @@
 
 from __future__ import absolute_import
 
+import json
 import sys
 
 import awkward as ak
@@ -14,6 +15,8 @@ class TreeToJson(Transformer):
         (s,) = s
         if sys.version_info[0] == 2:
             s = s.encode("utf-8")
+        if s.startswith('"'):
+            return str(json.loads(s))
         return s[1:-1]
 
     def number(self, n):
-- 
2.43.0


From 45f1eed77e0af79f338ae8b9b829129e85612858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:57 +0000
Subject: [PATCH 112/152] fix: from_numpy of strided or empty arrays of strings

---
 src/awkward/operations/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index f2103f6..d0c0c88 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -92,7 +92,7 @@ def from_numpy(
             array = array.reshape(1)
 
         if array.dtype.kind == "S":
-            asbytes = array.reshape(-1)
+            asbytes = numpy.ascontiguousarray(array.reshape(-1))
             itemsize = asbytes.dtype.itemsize
             starts = numpy.arange(0, len(asbytes) * itemsize, itemsize, dtype=np.int64)
             stops = starts + numpy.char.str_len(asbytes)
@@ -108,6 +108,9 @@ def from_numpy(
                 data = ak.layout.RegularArray(data, array.shape[i], array.shape[i - 1])
         elif array.dtype.kind == "U":
             asbytes = numpy.char.encode(array.reshape(-1), "utf-8", "surrogateescape")
+            if asbytes.dtype.kind != "S":
+                # numpy.char.encode does not return strings if there are none
+                asbytes = asbytes.astype("S")
             itemsize = asbytes.dtype.itemsize
             starts = numpy.arange(0, len(asbytes) * itemsize, itemsize, dtype=np.int64)
             stops = starts + numpy.char.str_len(asbytes)
-- 
2.43.0


From e65e2456285ab24850e617f5517ff9cc381418e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:57 +0000
Subject: [PATCH 113/152] fix: from_numpy of a field of a packed structured
 array is a valid layout

---
 src/awkward/operations/convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index d0c0c88..b0c3df3 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -125,6 +125,10 @@ def from_numpy(
             for i in range(len(array.shape) - 1, 0, -1):
                 data = ak.layout.RegularArray(data, array.shape[i], array.shape[i - 1])
         else:
+            itemsize = array.dtype.itemsize
+            if itemsize != 0 and any(x % itemsize != 0 for x in array.strides):
+                # for instance, one field of a packed structured array
+                array = array.copy()
             data = ak.layout.NumpyArray(array)
 
         if mask is None:
-- 
2.43.0


From b39e70e08c7bb847a57893f2b53a0c4fbb561845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:57 +0000
Subject: [PATCH 114/152] fix: from_numpy of multidimensional masked strings
 without a mask

---
 src/awkward/operations/convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index b0c3df3..89bacca 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -140,10 +140,10 @@ def from_numpy(
             else:
 
                 def attach(x):
-                    if isinstance(x, ak.layout.NumpyArray):
-                        return ak.layout.UnmaskedArray(x)
-                    else:
+                    if isinstance(x, ak.layout.RegularArray):
                         return ak.layout.RegularArray(attach(x.content), x.size, len(x))
+                    else:
+                        return ak.layout.UnmaskedArray(x)
 
                 return attach(data.toRegularArray())
         else:
-- 
2.43.0


From 8e32861490014bb580eb0c9b946d69efb1c97419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:58 +0000
Subject: [PATCH 115/152] fix: to_numpy of dates and time differences

---
 src/awkward/operations/convert.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 89bacca..111d530 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -242,10 +242,7 @@ def to_numpy(array, allow_missing=True):
             ]
         )
 
-    elif (
-        str(ak.operations.describe.type(array)) == "datetime64"
-        or str(ak.operations.describe.type(array)) == "timedelta64"
-    ):
+    elif isinstance(array, (np.datetime64, np.timedelta64)):
         return array
 
     elif isinstance(array, ak.partition.PartitionedArray):
@@ -369,6 +366,8 @@ def to_numpy(array, allow_missing=True):
         return out
 
     elif isinstance(array, ak.layout.NumpyArray):
+        if array.format.upper().startswith("M"):
+            return numpy.asarray(array.view_int64).view(array.format)
         out = ak.nplike.of(array).asarray(array)
         if type(out).__module__.startswith("cupy."):
             return out.get()
-- 
2.43.0


From 3fac70a564eae25d52c584f782ebdc62fae8f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:58 +0000
Subject: [PATCH 116/152] fix: to_numpy of lists of size zero keeps their
 number; unreachable elements are ignored

---
 src/awkward/operations/convert.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 111d530..3e25183 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -330,10 +330,12 @@ def to_numpy(array, allow_missing=True):
                 return content
 
     elif isinstance(array, ak.layout.RegularArray):
-        out = to_numpy(array.content, allow_missing=allow_missing)
+        out = to_numpy(
+            array.content[: len(array) * array.size], allow_missing=allow_missing
+        )
         head, tail = out.shape[0], out.shape[1:]
         if array.size == 0:
-            shape = (0, 0) + tail
+            shape = (len(array), 0) + tail
         else:
             shape = (head // array.size, array.size) + tail
         return out[: shape[0] * array.size].reshape(shape)
-- 
2.43.0


From c157d4a84e346204f6dc0289580b70bfa11cf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:58 +0000
Subject: [PATCH 117/152] fix: missing time differences stay missing in
 to_pandas

---
 src/awkward/operations/convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 3e25183..debebc6 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -5347,6 +5347,9 @@ or
     for column, row_arrays, col_names in recurse(layout2, [], ()):
         if isinstance(layout, ak.layout.Record):
             row_arrays = row_arrays[1:]  # Record --> one-element RecordArray
+        if isinstance(column, numpy.ma.MaskedArray) and column.dtype.kind in "Mm":
+            # Pandas would fill masked timedelta64 with a large number
+            column = column.filled(numpy.array("NaT", dtype=column.dtype))
         if len(col_names) == 0:
             columns = [anonymous]
         else:
-- 
2.43.0


From 48f4a13aca643bdfd2b67260fc3f1fda6fa9ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:11 +0000
Subject: [PATCH 118/152] fix: run_lengths of lists of optional strings counts
 runs of missing values

---
 src/awkward/operations/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index aad25c1..1fd2a27 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -347,7 +347,9 @@ def run_lengths(array, highlevel=True, behavior=None):
         else:
             diffs = data[1:] != data[:-1]
             if isinstance(diffs, ak.highlevel.Array):
-                diffs = nplike.asarray(diffs)
+                missing = nplike.asarray(ak.operations.structure.is_none(data))
+                diffs = nplike.asarray(ak.operations.structure.fill_none(diffs, False))
+                diffs = diffs | (missing[1:] != missing[:-1])
             if offsets is not None:
                 boundaries = offsets[(offsets > 0) & (offsets < len(data))]
                 diffs[boundaries - 1] = True
-- 
2.43.0


From c5c969942081905859ca376d693abb8910a564a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:20 +0000
Subject: [PATCH 119/152] fix: to_arrow nests fixed-size dimensions as lists
 instead of tensors inside other arrays, and converts dates

---
 src/awkward/operations/convert.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index debebc6..a183c4b 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2024,10 +2024,13 @@ def to_arrow(
     pyarrow = _import_pyarrow("ak.to_arrow")
 
     layout = to_layout(array, allow_record=False, allow_other=False)
+    if isinstance(layout, ak.layout.VirtualArray):
+        layout = layout.array
+    toplevel = layout  # tensors can't be nested within other Arrow arrays
 
     def recurse(layout, mask, is_option):
         if isinstance(layout, ak.layout.NumpyArray):
-            numpy_arr = numpy.asarray(layout)
+            numpy_arr = to_numpy(layout)
             length = len(numpy_arr)
             arrow_type = pyarrow.from_numpy_dtype(numpy_arr.dtype)
 
@@ -2065,7 +2068,7 @@ def to_arrow(
                     return pyarrow.Array.from_buffers(
                         arrow_type, length, [None, pyarrow.py_buffer(numpy_arr)]
                     )
-            elif allow_tensor:
+            elif allow_tensor and layout is toplevel:
                 return pyarrow.Tensor.from_numpy(numpy_arr)
             else:
                 return recurse(
@@ -2572,6 +2575,7 @@ def to_arrow_table(
                 list_to32=list_to32,
                 string_to32=string_to32,
                 bytestring_to32=bytestring_to32,
+                allow_tensor=False,
             )
         )
         pa_fields.append(
-- 
2.43.0


From 0a14e445413af8c90461e626c1e430824c001bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:20 +0000
Subject: [PATCH 120/152] fix: to_arrow converts unions with missing values and
 unions whose contents are not used in full

---
 src/awkward/operations/convert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index a183c4b..248406e 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2304,6 +2304,7 @@ def to_arrow(
                 if mask is not None:
                     length = int(numpy.ceil(len(this_index) / 8.0)) * 8
                     if len(numpy.unique(this_index)) == len(this_index):
+                        length = int(numpy.ceil(len(content) / 8.0)) * 8
                         this_bytemask = numpy.zeros(length, dtype=np.uint8)
                         this_bytemask[this_index] = bytemask[selected_tags]
                     else:
@@ -2331,7 +2332,10 @@ def to_arrow(
                 [
                     pyarrow.field(str(i), values[i].type).with_nullable(
                         is_option
-                        or isinstance(layout.content(i).type, ak.types.OptionType)
+                        or isinstance(
+                            ak.operations.describe.type(layout.content(i)),
+                            ak.types.OptionType,
+                        )
                     )
                     for i in range(len(values))
                 ],
-- 
2.43.0


From 37e489ecaa97e85c53144c1e1a265f2d2bfa55e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 121/152] fix: from_arrow reads dictionaries with missing
 positions, of any index type, and as non-nullable columns

---
 src/awkward/operations/convert.py | 39 +++++++++++++++++--------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 248406e..4fed3d0 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2641,28 +2641,31 @@ def _from_arrow(
 ):
     pyarrow = _import_pyarrow("ak.from_arrow")
 
+    def not_option(layout):
+        # categorical data and the null type don't have an option-type to remove
+        if isinstance(
+            layout, (ak.layout.IndexedArray64, ak.layout.IndexedOptionArray64)
+        ):
+            return layout
+        else:
+            return layout.content
+
     def popbuffers(array, tpe, buffers):
         if isinstance(tpe, pyarrow.lib.DictionaryType):
             index = popbuffers(array.indices, tpe.index_type, buffers)
             content = handle_arrow(array.dictionary)
+            parameters = {"__array__": "categorical"}
 
-            out = ak.layout.IndexedArray32(
-                ak.layout.Index32(index.content),
-                content,
-                parameters={"__array__": "categorical"},
-            ).simplify()
-
-            if isinstance(index, ak.layout.BitMaskedArray):
-                return ak.layout.BitMaskedArray(
-                    index.mask,
-                    out,
-                    True,
-                    len(index),
-                    True,
-                    parameters={"__array__": "categorical"},
+            positions = numpy.asarray(index.content).astype(np.int64)[: len(index)]
+            if isinstance(index, ak.layout.UnmaskedArray):
+                return ak.layout.IndexedArray64(
+                    ak.layout.Index64(positions), content, parameters=parameters
                 ).simplify()
             else:
-                return out
+                positions[numpy.asarray(index.bytemask()).view(np.bool_)] = -1
+                return ak.layout.IndexedOptionArray64(
+                    ak.layout.Index64(positions), content, parameters=parameters
+                ).simplify()
             # RETURNED because 'index' has already been offset-corrected.
 
         elif isinstance(tpe, pyarrow.lib.StructType):
@@ -2709,7 +2712,7 @@ def _from_arrow(
             )
             content = popbuffers(array.values, tpe.value_type, buffers)
             if not tpe.value_field.nullable:
-                content = content.content
+                content = not_option(content)
 
             out = ak.layout.ListOffsetArray32(offsets, content)
             # No return yet!
@@ -2722,7 +2725,7 @@ def _from_arrow(
             )
             content = popbuffers(array.values, tpe.value_type, buffers)
             if not tpe.value_field.nullable:
-                content = content.content
+                content = not_option(content)
 
             out = ak.layout.ListOffsetArray64(offsets, content)
             # No return yet!
@@ -2732,7 +2735,7 @@ def _from_arrow(
             mask = buffers.pop(0)
             content = popbuffers(array.values, tpe.value_type, buffers)
             if not tpe.value_field.nullable:
-                content = content.content
+                content = not_option(content)
 
             out = ak.layout.RegularArray(content, tpe.list_size)
             # No return yet!
-- 
2.43.0


From 8302465c965751726916f56efff4b54a60add6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 122/152] fix: from_arrow reads a slice of a sparse union from
 its own offset

---
 src/awkward/operations/convert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 4fed3d0..21cb6cb 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2754,6 +2754,8 @@ def _from_arrow(
             mask = buffers.pop(0)
             tags = numpy.frombuffer(buffers.pop(0), dtype=np.int8)
             if tpe.mode == "sparse":
+                # the fields have already been offset-corrected
+                tags = tags[array.offset : array.offset + len(array)]
                 index = numpy.arange(len(tags), dtype=np.int32)
             else:
                 index = numpy.frombuffer(buffers.pop(0), dtype=np.int32)
@@ -2771,11 +2773,13 @@ def _from_arrow(
                     contents[i] = contents[i][: these.max() + 1]
             for i in range(len(contents)):
                 if not tpe[i].nullable:
-                    contents[i] = contents[i].content
+                    contents[i] = not_option(contents[i])
 
             tags = ak.layout.Index8(tags)
             index = ak.layout.Index32(index)
             out = ak.layout.UnionArray8_32(tags, index, contents)
+            if tpe.mode == "sparse":
+                return ak.layout.UnmaskedArray(out)
             # No return yet!
 
         elif tpe == pyarrow.string():
-- 
2.43.0


From 81bd13fdcd73b2cf6f863d7e5b43a4b57b64c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 123/152] fix: from_arrow reads the missing values of a slice
 of structs from the slice's own offset

---
 src/awkward/operations/convert.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 21cb6cb..63bb5c9 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2678,7 +2678,7 @@ def _from_arrow(
                 for i in range(tpe.num_fields):
                     content = popbuffers(array.field(tpe[i].name), tpe[i].type, buffers)
                     if not tpe[i].nullable:
-                        content = content.content
+                        content = not_option(content)
                     child_arrays.append(content)
                     keys.append(tpe[i].name)
             else:
@@ -2691,15 +2691,23 @@ def _from_arrow(
                             array.field(tpe[i].name), tpe[i].type, buffers
                         )
                         if not tpe[i].nullable:
-                            content = content.content
+                            content = not_option(content)
                         child_arrays.append(content)
                         keys.append(tpe[i].name)
                 assert found
 
             out = ak.layout.RecordArray(child_arrays, keys, length=len(array))
             if mask is not None:
-                mask = ak.layout.IndexU8(numpy.frombuffer(mask, dtype=np.uint8))
-                return ak.layout.BitMaskedArray(mask, out, True, len(out), True)
+                mask = numpy.frombuffer(mask, dtype=np.uint8)
+                if array.offset != 0:
+                    bytemask = numpy.unpackbits(mask).reshape(-1, 8)[:, ::-1].reshape(-1)
+                    bytemask = bytemask[array.offset : array.offset + len(array)]
+                    return ak.layout.ByteMaskedArray(
+                        ak.layout.Index8(bytemask.view(np.int8)), out, True
+                    )
+                return ak.layout.BitMaskedArray(
+                    ak.layout.IndexU8(mask), out, True, len(out), True
+                )
             else:
                 return ak.layout.UnmaskedArray(out)
             # RETURNED because each field has already been offset-corrected.
-- 
2.43.0


From 02ff8335d9a304e37f646070fbfd111bca553da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 124/152] fix: from_arrow gives arrays of the null type their
 own length

---
 src/awkward/operations/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 63bb5c9..f1f4586 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2863,11 +2863,11 @@ def _from_arrow(
             mask = buffers.pop(0)
             assert tpe.num_fields == 0
             assert mask is None
-            out = ak.layout.IndexedOptionArray64(
+            return ak.layout.IndexedOptionArray64(
                 ak.layout.Index64(numpy.full(len(array), -1, dtype=np.int64)),
                 ak.layout.EmptyArray(),
             )
-            # No return yet!
+            # RETURNED because it is already option-type with the right length.
 
         elif isinstance(tpe, pyarrow.lib.DataType):
             assert tpe.num_buffers == 2
-- 
2.43.0


From 3fff62e9d8addbdb832f24d002d19245e25a902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:15 +0000
Subject: [PATCH 125/152] fix: to_parquet writes partitions whose lists differ
 only in offset size

---
 src/awkward/operations/convert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index f1f4586..9473bdc 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -3093,7 +3093,11 @@ def to_parquet(
             except StopIteration:
                 break
             else:
-                writer.write_table(pyarrow.Table.from_batches([record_batch]))
+                table = pyarrow.Table.from_batches([record_batch])
+                if table.schema != options["schema"]:
+                    # equal-type partitions may differ in 32-bit and 64-bit lists
+                    table = table.cast(options["schema"])
+                writer.write_table(table)
     finally:
         writer.close()
 
-- 
2.43.0


From 7ced3611df6eedfbdfccf8f7d635969f6b6f1ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:01 +0000
Subject: [PATCH 126/152] fix: compiled strings and builder field names use the
 llvmlite types that exist

---
 src/awkward/_connect/_numba/builder.py | 2 +-
 src/awkward/behaviors/string.py        | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/awkward/_connect/_numba/builder.py b/src/awkward/_connect/_numba/builder.py
index 47bacac..d87dc27 100644
--- a/src/awkward/_connect/_numba/builder.py
+++ b/src/awkward/_connect/_numba/builder.py
@@ -23,7 +23,7 @@ def globalstring(context, builder, pyvalue):
         )
     ptr = context.get_constant(numba.types.uintp, dynamic_addrs[pyvalue].ctypes.data)
     return builder.inttoptr(
-        ptr, llvmlite.llvmpy.core.Type.pointer(llvmlite.llvmpy.core.Type.int(8))
+        ptr, llvmlite.ir.types.PointerType(llvmlite.ir.types.IntType(8))
     )
 
 
diff --git a/src/awkward/behaviors/string.py b/src/awkward/behaviors/string.py
index cc40509..7471135 100644
--- a/src/awkward/behaviors/string.py
+++ b/src/awkward/behaviors/string.py
@@ -184,7 +184,7 @@ def _string_numba_lower(
     context, builder, rettype, viewtype, viewval, viewproxy, attype, atval
 ):
     import numba
-    import llvmlite.llvmpy.core
+    import llvmlite.ir.types
 
     whichpos = ak._connect._numba.layout.posat(
         context, builder, viewproxy.pos, viewtype.type.CONTENT
@@ -230,8 +230,8 @@ def _string_numba_lower(
     )
     rawptr_cast = builder.inttoptr(
         rawptr,
-        llvmlite.llvmpy.core.Type.pointer(
-            llvmlite.llvmpy.core.Type.int(numba.intp.bitwidth // 8)
+        llvmlite.ir.types.PointerType(
+            llvmlite.ir.types.IntType(numba.intp.bitwidth // 8)
         ),
     )
     strsize = builder.sub(stop, start)
-- 
2.43.0


From 8e002b6e62e098cc1399a6355e9763401e1e9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:01 +0000
Subject: [PATCH 127/152] fix: compiled records of multidimensional arrays get
 the same type as arrays of them

---
 src/awkward/_connect/_numba/arrayview.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numba/arrayview.py b/src/awkward/_connect/_numba/arrayview.py
index 275ed9c..ba4cbc4 100644
--- a/src/awkward/_connect/_numba/arrayview.py
+++ b/src/awkward/_connect/_numba/arrayview.py
@@ -748,7 +748,9 @@ class RecordView(object):
             numpytype=(np.number, bool, np.bool_),
         )
         assert isinstance(layout, ak.layout.Record)
-        arraylayout = layout.array
+        arraylayout = ak.operations.convert.regularize_numpyarray(
+            layout.array, allow_empty=False, highlevel=False
+        )
         return RecordView(
             ArrayView(
                 ak._connect._numba.layout.typeof(arraylayout),
-- 
2.43.0


From 79bb60261a924ce9c451723ae216140af45ec8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:01 +0000
Subject: [PATCH 128/152] fix: compiled slices of and iteration over
 partitioned arrays find the right partition

---
 src/awkward/_connect/_numba/arrayview.py | 177 ++++++++++-------------
 1 file changed, 79 insertions(+), 98 deletions(-)

diff --git a/src/awkward/_connect/_numba/arrayview.py b/src/awkward/_connect/_numba/arrayview.py
index ba4cbc4..fa9db96 100644
--- a/src/awkward/_connect/_numba/arrayview.py
+++ b/src/awkward/_connect/_numba/arrayview.py
@@ -1376,6 +1376,75 @@ class PartitionedViewType(numba.types.IterableType, numba.types.Sized):
         viewproxy.pylookup = lookup_obj
         return viewproxy._getvalue()
 
+    def lower_find_partition(self, context, builder, partviewproxy, atval):
+        # ensures that the view's current partition is the one that contains
+        # atval (an absolute position) and returns the position in that partition
+        localstart = self.lower_get_localstart(
+            context,
+            builder,
+            partviewproxy.stops,
+            builder.load(partviewproxy.partitionid),
+        )
+        localstop = self.lower_get_localstop(
+            context,
+            builder,
+            partviewproxy.stops,
+            builder.load(partviewproxy.partitionid),
+        )
+
+        with builder.if_then(
+            builder.not_(
+                builder.and_(
+                    builder.icmp_signed("<=", localstart, atval),
+                    builder.icmp_signed("<", atval, localstop),
+                )
+            ),
+            likely=False,
+        ):
+
+            searchsorted_sig = numba.intp(self.stopstype, numba.intp)
+            searchsorted_args = (partviewproxy.stops, atval)
+
+            def searchsorted_impl(stops, where):
+                return ak.nplike.numpy.searchsorted(stops, where, side="right")
+
+            partitionid_val = context.compile_internal(
+                builder, searchsorted_impl, searchsorted_sig, searchsorted_args
+            )
+            builder.store(partitionid_val, partviewproxy.partitionid)
+
+            viewlength = builder.sub(
+                self.lower_get_localstop(
+                    context, builder, partviewproxy.stops, partitionid_val
+                ),
+                self.lower_get_localstart(
+                    context, builder, partviewproxy.stops, partitionid_val
+                ),
+            )
+
+            pyapi = context.get_python_api(builder)
+            gil = pyapi.gil_ensure()
+            builder.store(
+                self.lower_get_partitionid(
+                    context,
+                    builder,
+                    pyapi,
+                    partviewproxy.pylookups,
+                    partitionid_val,
+                    viewlength,
+                ),
+                partviewproxy.view,
+            )
+            pyapi.gil_release(gil)
+
+        reallocalstart = self.lower_get_localstart(
+            context,
+            builder,
+            partviewproxy.stops,
+            builder.load(partviewproxy.partitionid),
+        )
+        return builder.sub(atval, reallocalstart)
+
 
 @numba.extending.register_model(PartitionedViewType)
 class PartitionedViewModel(numba.core.datamodel.models.StructModel):
@@ -1526,6 +1595,9 @@ def lower_getitem_at_partitioned(context, builder, sig, args):
     rettype, (partviewtype, wheretype) = sig.return_type, sig.args
     partviewval, whereval = args
     partviewproxy = context.make_helper(builder, partviewtype, partviewval)
+    whereval = ak._connect._numba.castint(
+        context, builder, wheretype, numba.intp, whereval
+    )
 
     length = builder.sub(partviewproxy.stop, partviewproxy.start)
     regular_atval = numba.core.cgutils.alloca_once_value(builder, whereval)
@@ -1546,58 +1618,14 @@ def lower_getitem_at_partitioned(context, builder, sig, args):
             builder, ValueError, ("slice index out of bounds",)
         )
 
-    localstart = partviewtype.lower_get_localstart(
-        context, builder, partviewproxy.stops, builder.load(partviewproxy.partitionid)
-    )
-    localstop = partviewtype.lower_get_localstop(
-        context, builder, partviewproxy.stops, builder.load(partviewproxy.partitionid)
+    subatval = partviewtype.lower_find_partition(
+        context, builder, partviewproxy, builder.add(partviewproxy.start, atval)
     )
 
-    with builder.if_then(
-        builder.not_(
-            builder.and_(
-                builder.icmp_signed("<=", localstart, atval),
-                builder.icmp_signed(">", atval, localstop),
-            )
-        ),
-        likely=False,
-    ):
-
-        searchsorted_sig = numba.intp(partviewtype.stopstype, wheretype)
-        searchsorted_args = (partviewproxy.stops, atval)
-
-        def searchsorted_impl(stops, where):
-            return ak.nplike.numpy.searchsorted(stops, where, side="right")
-
-        partitionid_val = context.compile_internal(
-            builder, searchsorted_impl, searchsorted_sig, searchsorted_args
-        )
-        builder.store(partitionid_val, partviewproxy.partitionid)
-
-        pyapi = context.get_python_api(builder)
-        gil = pyapi.gil_ensure()
-        builder.store(
-            partviewtype.lower_get_partitionid(
-                context,
-                builder,
-                pyapi,
-                partviewproxy.pylookups,
-                builder.load(partviewproxy.partitionid),
-                builder.sub(localstop, localstart),
-            ),
-            partviewproxy.view,
-        )
-        pyapi.gil_release(gil)
-
     viewtype = partviewtype.toArrayViewType()
     viewval = builder.load(partviewproxy.view)
     viewproxy = context.make_helper(builder, viewtype, value=viewval)
 
-    reallocalstart = partviewtype.lower_get_localstart(
-        context, builder, partviewproxy.stops, builder.load(partviewproxy.partitionid)
-    )
-    subatval = builder.sub(atval, reallocalstart)
-
     return viewtype.type.lower_getitem_at_check(
         context,
         builder,
@@ -1665,8 +1693,8 @@ def lower_getitem_range_partitioned(context, builder, sig, args):
     proxyout.view = numba.core.cgutils.alloca_once_value(
         builder, builder.load(partviewproxy.view)
     )
-    proxyout.start = builder.load(regular_start)
-    proxyout.stop = builder.load(regular_stop)
+    proxyout.start = builder.add(partviewproxy.start, builder.load(regular_start))
+    proxyout.stop = builder.add(partviewproxy.start, builder.load(regular_stop))
 
     if context.enable_nrt:
         context.nrt.incref(builder, partviewtype.stopstype, proxyout.stops)
@@ -1824,55 +1852,8 @@ def lower_iternext_partitioned(context, builder, sig, args, result):
     result.set_valid(is_valid)
 
     with builder.if_then(is_valid, likely=True):
-        maybestop = itertype.partviewtype.lower_get_localstop(
-            context,
-            builder,
-            partviewproxy.stops,
-            builder.load(partviewproxy.partitionid),
-        )
-
-        with builder.if_then(builder.icmp_signed("==", at, maybestop)):
-            builder.store(
-                builder.add(
-                    builder.load(partviewproxy.partitionid),
-                    context.get_constant(numba.intp, 1),
-                ),
-                partviewproxy.partitionid,
-            )
-
-            localstart = itertype.partviewtype.lower_get_localstart(
-                context,
-                builder,
-                partviewproxy.stops,
-                builder.load(partviewproxy.partitionid),
-            )
-            localstop = itertype.partviewtype.lower_get_localstop(
-                context,
-                builder,
-                partviewproxy.stops,
-                builder.load(partviewproxy.partitionid),
-            )
-
-            pyapi = context.get_python_api(builder)
-            gil = pyapi.gil_ensure()
-            builder.store(
-                itertype.partviewtype.lower_get_partitionid(
-                    context,
-                    builder,
-                    pyapi,
-                    partviewproxy.pylookups,
-                    builder.load(partviewproxy.partitionid),
-                    builder.sub(localstop, localstart),
-                ),
-                partviewproxy.view,
-            )
-            pyapi.gil_release(gil)
-
-        realstart = itertype.partviewtype.lower_get_localstart(
-            context,
-            builder,
-            partviewproxy.stops,
-            builder.load(partviewproxy.partitionid),
+        subatval = itertype.partviewtype.lower_find_partition(
+            context, builder, partviewproxy, builder.add(partviewproxy.start, at)
         )
 
         outview = builder.load(partviewproxy.view)
@@ -1888,7 +1869,7 @@ def lower_iternext_partitioned(context, builder, sig, args, result):
                 outview,
                 outviewproxy,
                 numba.intp,
-                builder.sub(at, realstart),
+                subatval,
                 False,
                 False,
             )
-- 
2.43.0


From f586e7ae518cc060f1d542a6ed8e18be209f4244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:01 +0000
Subject: [PATCH 129/152] fix: compiled bit-masked arrays read the bit at the
 absolute position

---
 src/awkward/_connect/_numba/layout.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index 4ba773c..58810da 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -1611,7 +1611,7 @@ class BitMaskedArrayType(ContentType):
             mask,
             content,
             self.valid_when,
-            len(content),
+            min(len(content), len(mask) * 8),
             self.lsb_order,
             parameters=self.parameters,
         )
@@ -1642,18 +1642,18 @@ class BitMaskedArrayType(ContentType):
         atval = regularize_atval(
             context, builder, viewproxy, attype, atval, wrapneg, checkbounds
         )
-        bitatval = builder.sdiv(atval, context.get_constant(numba.intp, 8))
+        bitpos = builder.add(viewproxy.start, atval)
+        maskarraypos = builder.sdiv(bitpos, context.get_constant(numba.intp, 8))
         shiftval = ak._connect._numba.castint(
             context,
             builder,
             numba.intp,
             numba.uint8,
-            builder.srem(atval, context.get_constant(numba.intp, 8)),
+            builder.srem(bitpos, context.get_constant(numba.intp, 8)),
         )
 
         maskpos = posat(context, builder, viewproxy.pos, self.MASK)
         maskptr = getat(context, builder, viewproxy.arrayptrs, maskpos)
-        maskarraypos = builder.add(viewproxy.start, bitatval)
         byte = getat(
             context, builder, maskptr, maskarraypos, rettype=self.masktype.dtype
         )
-- 
2.43.0


From 545e8192703c56a4e0f0afd27badb6ea9280e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:01 +0000
Subject: [PATCH 130/152] fix: compiled regular lists of size zero keep their
 length

---
 src/awkward/_connect/_numba/layout.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index 58810da..cc0ec54 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -647,6 +647,7 @@ class NumpyArrayType(ContentType):
 class RegularArrayType(ContentType):
     IDENTITIES = 0
     CONTENT = 1
+    LENGTH = 2
 
     @classmethod
     def tolookup(cls, layout, positions, sharedptrs, arrays):
@@ -696,6 +697,8 @@ class RegularArrayType(ContentType):
         lookup.sharedptrs_hold[pos] = layout._persistent_shared_ptr
         lookup.sharedptrs[pos] = lookup.sharedptrs_hold[pos].ptr()
         self.form_fill_identities(pos, layout, lookup)
+        lookup.positions[pos + self.LENGTH] = len(layout)
+        lookup.arrayptrs[pos + self.LENGTH] = len(layout)
 
         self.contenttype.form_fill(
             lookup.arrayptrs[pos + self.CONTENT], layout.content, lookup
@@ -705,7 +708,12 @@ class RegularArrayType(ContentType):
         content = self.contenttype.tolayout(
             lookup, lookup.positions[pos + self.CONTENT], fields
         )
-        return ak.layout.RegularArray(content, self.size, 0, parameters=self.parameters)
+        return ak.layout.RegularArray(
+            content,
+            self.size,
+            lookup.positions[pos + self.LENGTH],  # used if self.size == 0
+            parameters=self.parameters,
+        )
 
     def hasfield(self, key):
         return self.contenttype.hasfield(key)
-- 
2.43.0


From 9be9b95ddf53824d8e7b083684eafc559fa5db05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:02 +0000
Subject: [PATCH 131/152] fix: compiled lazy NumPy arrays with strides are read
 in order

---
 src/awkward/_connect/_numba/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index cc0ec54..90d0516 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -587,9 +587,9 @@ class NumpyArrayType(ContentType):
         lookup.sharedptrs[pos] = lookup.sharedptrs_hold[pos].ptr()
         self.form_fill_identities(pos, layout, lookup)
 
-        lookup.original_positions[pos + self.ARRAY] = ak.nplike.of(layout).asarray(
+        lookup.original_positions[pos + self.ARRAY] = ak.nplike.of(
             layout
-        )
+        ).ascontiguousarray(ak.nplike.of(layout).asarray(layout))
         lookup.arrayptrs[pos + self.ARRAY] = lookup.original_positions[
             pos + self.ARRAY
         ].ctypes.data
-- 
2.43.0


From d3dc6d169ffdb7dbd443892fd6c4b0c9e8a28a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:02 +0000
Subject: [PATCH 132/152] fix: compiled lazy arrays of strings give strings

---
 src/awkward/_connect/_numba/layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index 90d0516..382e50e 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -2628,7 +2628,8 @@ class VirtualArrayType(ContentType):
                     ak.forms.ListOffsetForm,
                 ),
             ):
-                return form.content
+                arrayview = wrap(form)
+                return arrayview.type.getitem_at_check(arrayview)
 
             elif isinstance(form, ak.forms.IndexedForm):
                 return getitem_at(form.content)
-- 
2.43.0


From c9b22dbc63439e195830dcf0d4cce01365c9115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:02 +0000
Subject: [PATCH 133/152] fix: compiled fields of lazy records keep the field

---
 src/awkward/_connect/_numba/layout.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index 382e50e..0c851e9 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -2581,6 +2581,8 @@ class VirtualArrayType(ContentType):
         pyptr = ctypes.cast(voidptr, ctypes.py_object)
         ctypes.pythonapi.Py_IncRef(pyptr)
         virtualarray = pyptr.value
+        for field in fields:
+            virtualarray = virtualarray[field]
         return virtualarray
 
     def hasfield(self, key):
-- 
2.43.0


From 9064d8e401ec532bea7629bd0aecf4ac3e84e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:02 +0000
Subject: [PATCH 134/152] fix: compiled lazy arrays take any integer index

---
 src/awkward/_connect/_numba/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index 0c851e9..06148b8 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -2784,7 +2784,7 @@ class VirtualArrayType(ContentType):
             nextviewtype,
             proxynext._getvalue(),
             proxynext,
-            numba.intp,
+            attype,
             atval,
             wrapneg,
             checkbounds,
-- 
2.43.0


From c2a4c8998ed4dd1933fc507137e642dfcb04c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:02 +0000
Subject: [PATCH 135/152] fix: compiled lazy option arrays are option-type

---
 src/awkward/_connect/_numba/layout.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index 06148b8..c3d0fa1 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -656,6 +656,8 @@ class RegularArrayType(ContentType):
         sharedptrs[-1] = layout._persistent_shared_ptr
         positions.append(None)
         sharedptrs.append(None)
+        positions.append(len(layout))
+        sharedptrs.append(None)
         positions[pos + cls.CONTENT] = ak._connect._numba.arrayview.tolookup(
             layout.content, positions, sharedptrs, arrays
         )
@@ -668,6 +670,8 @@ class RegularArrayType(ContentType):
         sharedptrs[-1] = 0
         positions.append(None)
         sharedptrs.append(None)
+        positions.append(0)
+        sharedptrs.append(None)
         positions[pos + cls.CONTENT] = ak._connect._numba.arrayview.tolookup(
             form.content, positions, sharedptrs, arrays
         )
@@ -2881,7 +2885,7 @@ def optiontype_of_form(form):
             ak.forms.UnmaskedForm,
         ),
     ):
-        return False
+        return True
 
     elif isinstance(form, ak.forms.UnionForm):
         return any(optiontype_of_form(x) for x in form.contents)
-- 
2.43.0


From de929eebaf8f005a59871170b313a1a5b3d5d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:13 +0000
Subject: [PATCH 136/152] fix: record forms keep the order of their fields in
 Python

---
 src/python/forms.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/python/forms.cpp b/src/python/forms.cpp
index df83f13..a5247ab 100644
--- a/src/python/forms.cpp
+++ b/src/python/forms.cpp
@@ -575,8 +575,7 @@ make_RecordForm(const py::handle& m, const std::string& name) {
           py::arg("has_identities") = false,
           py::arg("parameters") = py::none(),
           py::arg("form_key") = py::none())
-      .def(py::init([](const std::map<std::string,
-                                      std::shared_ptr<ak::Form>>& contents,
+      .def(py::init([](const py::dict& contents,
                        bool has_identities,
                        const py::object& parameters,
                        const py::object& form_key) -> ak::RecordForm {
@@ -584,8 +583,9 @@ make_RecordForm(const py::handle& m, const std::string& name) {
           std::make_shared<ak::util::RecordLookup>();
         std::vector<std::shared_ptr<ak::Form>> contentvec;
         for (auto pair : contents) {
-          recordlookup.get()->push_back(pair.first);
-          contentvec.push_back(pair.second);
+          recordlookup.get()->push_back(pair.first.cast<std::string>());
+          contentvec.push_back(
+            pair.second.cast<std::shared_ptr<ak::Form>>());
         }
         return ak::RecordForm(has_identities,
                               dict2parameters(parameters),
@@ -597,10 +597,10 @@ make_RecordForm(const py::handle& m, const std::string& name) {
           py::arg("parameters") = py::none(),
           py::arg("form_key") = py::none())
       .def_property_readonly("contents", [](const ak::RecordForm& self)
-           -> std::map<std::string, std::shared_ptr<ak::Form>> {
-        std::map<std::string, std::shared_ptr<ak::Form>> out;
+           -> py::dict {
+        py::dict out;
         for (int64_t i = 0;  i < self.numfields();  i++) {
-          out[self.key(i)] = self.content(i);
+          out[py::cast(self.key(i))] = py::cast(self.content(i));
         }
         return out;
       })
-- 
2.43.0


From b6db3b824c1c9d355b5f6a5b83b4567a57fd65a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:04 +0000
Subject: [PATCH 137/152] fix: ending a list that was not begun in a record
 builder raises

---
 src/libawkward/layoutbuilder/RecordArrayBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp b/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp
index afdadf5..ec37e35 100644
--- a/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp
@@ -144,6 +144,11 @@ namespace awkward {
 
   void
   RecordArrayBuilder::end_list(LayoutBuilder* builder) {
+    if (list_field_index_.empty()) {
+      throw std::invalid_argument(
+        std::string("called 'end_list' without 'begin_list' at the same level before it")
+        + FILENAME(__LINE__));
+    }
     field_index_ = list_field_index_.back();
     contents_[(size_t)field_index_].get()->end_list(builder);
     list_field_index_.pop_back();
-- 
2.43.0


From 52338b1a4f955960c1f7a51e9ba9a5b9b6d74930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:37 +0000
Subject: [PATCH 138/152] fix: strings_astype of an array without strings

---
 src/awkward/operations/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 1fd2a27..2cd60ca 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -4700,6 +4700,9 @@ def strings_astype(array, to, highlevel=True, behavior=None):
             layout.parameter("__array__") == "string"
             or layout.parameter("__array__") == "bytestring"
         ):
+            if len(layout) == 0:
+                empty = ak.nplike.of(layout).empty(0, dtype=to_dtype)
+                return lambda: ak.layout.NumpyArray(empty)
             layout = without_parameters(layout, highlevel=False)
             max_length = ak.max(num(layout))
             regulararray = layout.rpad_and_clip(max_length, 1)
-- 
2.43.0


From 83d2701339959bf11324492f1bbf24b366dafd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:52 +0000
Subject: [PATCH 139/152] fix: partitioned arrays sliced by lazy, indexed or
 partitioned multidimensional arrays

---
 src/awkward/partition.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index df9f2f3..cf3fcb6 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -360,10 +360,20 @@ class PartitionedArray(object):
                     allow_other=False,
                     numpytype=(np.integer, np.bool_),
                 )
+                node = layout
+                while True:
+                    if isinstance(node, PartitionedArray):
+                        node = first(node)
+                    elif isinstance(node, ak.layout.VirtualArray):
+                        node = node.array
+                    elif isinstance(node, ak._util.indexedtypes):
+                        node = node.content
+                    else:
+                        break
 
                 if isinstance(
-                    layout, (ak.layout.EmptyArray, ak.layout.RegularArray)
-                ) or (isinstance(layout, ak.layout.NumpyArray) and layout.ndim > 1):
+                    node, (ak.layout.EmptyArray, ak.layout.RegularArray)
+                ) or (isinstance(node, ak.layout.NumpyArray) and node.ndim > 1):
                     return self.toContent()[where]
 
                 t = ak.operations.describe.type(layout)
-- 
2.43.0


From 6212a816052ad6b5aa1c611425c2a252af5648ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 140/152] fix: where and isclose keep the behavior of their
 arguments

---
 src/awkward/operations/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 2cd60ca..30eabb9 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1833,7 +1833,7 @@ def where(condition, *args, **kwargs):
             else:
                 return None
 
-        behavior = ak._util.behaviorof(akcondition, left, right)
+        behavior = ak._util.behaviorof(condition, *args)
         out = ak._util.broadcast_and_apply(
             [akcondition, left, right], getfunction, behavior, pass_depth=False
         )
@@ -4557,7 +4557,7 @@ def isclose(
         else:
             return None
 
-    behavior = ak._util.behaviorof(one, two, behavior=behavior)
+    behavior = ak._util.behaviorof(a, b, behavior=behavior)
     out = ak._util.broadcast_and_apply(
         [one, two], getfunction, behavior, pass_depth=False
     )
-- 
2.43.0


From 5f6e17e06c38440988cc9f9b8bbd89743f2f45c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 141/152] fix: records broadcast against regular lists as
 single values

---
 src/awkward/_util.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index a86686f..5eec834 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -1114,18 +1114,11 @@ def broadcast_and_apply(  # noqa: C901
 
 
 def broadcast_pack(inputs, isscalar):
-    maxlen = -1
-    for x in inputs:
-        if isinstance(x, ak.layout.Content):
-            maxlen = max(maxlen, len(x))
-    if maxlen < 0:
-        maxlen = 1
-
     nextinputs = []
     for x in inputs:
         if isinstance(x, ak.layout.Record):
-            index = ak.nplike.of(*inputs).full(maxlen, x.at, dtype=np.int64)
-            nextinputs.append(ak.layout.RegularArray(x.array[index], maxlen, 1))
+            index = ak.nplike.of(*inputs).full(1, x.at, dtype=np.int64)
+            nextinputs.append(ak.layout.RegularArray(x.array[index], 1, 1))
             isscalar.append(True)
         elif isinstance(x, ak.layout.Content):
             nextinputs.append(ak.layout.RegularArray(x, len(x), 1))
-- 
2.43.0


From e295e6e180744aa4c3a6000ba97b4f2c8b664a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 142/152] fix: the record name of a union of lists of records

---
 src/libawkward/array/UnionArray.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/UnionArray.cpp b/src/libawkward/array/UnionArray.cpp
index 4f64688..97f12ef 100644
--- a/src/libawkward/array/UnionArray.cpp
+++ b/src/libawkward/array/UnionArray.cpp
@@ -131,7 +131,9 @@ namespace awkward {
       }
       out = contents_[0].get()->purelist_parameter(key);
       for (size_t i = 1;  i < contents_.size();  i++) {
-        if (!contents_[i].get()->parameter_equals(key, out)) {
+        util::Parameters other(
+          { { key, contents_[i].get()->purelist_parameter(key) } });
+        if (!util::parameter_equals(other, key, out)) {
           return "null";
         }
       }
-- 
2.43.0


From d7c1e7803cb7d68ec4842440a54c1cd41496cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:36 +0000
Subject: [PATCH 143/152] fix: empty ranges of Python regular and record arrays

---
 src/awkward/_v2/contents/recordarray.py  | 8 +++-----
 src/awkward/_v2/contents/regulararray.py | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/awkward/_v2/contents/recordarray.py b/src/awkward/_v2/contents/recordarray.py
index 8aed6de..6132d16 100644
--- a/src/awkward/_v2/contents/recordarray.py
+++ b/src/awkward/_v2/contents/recordarray.py
@@ -171,11 +171,8 @@ class RecordArray(Content):
 
     def _getitem_range(self, where):
         start, stop, step = where.indices(len(self))
+        stop = max(start, stop)
         if len(self._contents) == 0:
-            start = min(max(start, 0), self._length)
-            stop = min(max(stop, 0), self._length)
-            if stop < start:
-                stop = start
             return RecordArray([], self._recordlookup, stop - start)
         else:
             return RecordArray(
@@ -190,9 +187,10 @@ class RecordArray(Content):
     def _getitem_fields(self, where):
         indexes = [self.key_to_index(key) for key in where]
         if self._recordlookup is None:
-            return RecordArray([self.content(i) for i in indexes], None)
+            return RecordArray([self.content(i) for i in indexes], None, self._length)
         else:
             return RecordArray(
                 [self.content(i) for i in indexes],
                 [self._recordlookup[i] for i in indexes],
+                self._length,
             )
diff --git a/src/awkward/_v2/contents/regulararray.py b/src/awkward/_v2/contents/regulararray.py
index 421a426..9328ac9 100644
--- a/src/awkward/_v2/contents/regulararray.py
+++ b/src/awkward/_v2/contents/regulararray.py
@@ -70,6 +70,7 @@ class RegularArray(Content):
 
     def _getitem_range(self, where):
         start, stop, step = where.indices(len(self))
+        stop = max(start, stop)
         zeros_length = stop - start
         start *= self._size
         stop *= self._size
-- 
2.43.0


From e0907cf35ea341f488798d7ca21f0f0d6896fc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:36 +0000
Subject: [PATCH 144/152] fix: Python byte-masked arrays treat any nonzero mask
 value as set

---
 src/awkward/_v2/contents/bytemaskedarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_v2/contents/bytemaskedarray.py b/src/awkward/_v2/contents/bytemaskedarray.py
index a76f74d..14752ab 100644
--- a/src/awkward/_v2/contents/bytemaskedarray.py
+++ b/src/awkward/_v2/contents/bytemaskedarray.py
@@ -76,7 +76,7 @@ class ByteMaskedArray(Content):
             where += len(self)
         if 0 > where or where >= len(self):
             raise IndexError("array index out of bounds")
-        if self._mask[where] == self._valid_when:
+        if (self._mask[where] != 0) == self._valid_when:
             return self._content[where]
         else:
             return None
-- 
2.43.0


From 7159195d158bbf6a5e1dd19852fe5bf7e7b0127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:36 +0000
Subject: [PATCH 145/152] fix: Python list and union arrays check the type of
 their indexes

---
 src/awkward/_v2/contents/listarray.py       | 12 ++++++++----
 src/awkward/_v2/contents/listoffsetarray.py | 12 ++++++++----
 src/awkward/_v2/contents/unionarray.py      | 12 ++++++++----
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/awkward/_v2/contents/listarray.py b/src/awkward/_v2/contents/listarray.py
index fdf4d9e..8a6fe85 100644
--- a/src/awkward/_v2/contents/listarray.py
+++ b/src/awkward/_v2/contents/listarray.py
@@ -11,10 +11,14 @@ np = ak.nplike.NumpyMetadata.instance()
 
 class ListArray(Content):
     def __init__(self, starts, stops, content):
-        if not isinstance(starts, Index) and starts.dtype in (
-            np.dtype(np.int32),
-            np.dtype(np.uint32),
-            np.dtype(np.int64),
+        if not (
+            isinstance(starts, Index)
+            and starts.dtype
+            in (
+                np.dtype(np.int32),
+                np.dtype(np.uint32),
+                np.dtype(np.int64),
+            )
         ):
             raise TypeError(
                 "{0} 'starts' must be an Index with dtype in (int32, uint32, int64), "
diff --git a/src/awkward/_v2/contents/listoffsetarray.py b/src/awkward/_v2/contents/listoffsetarray.py
index 843ec2d..cd2ff53 100644
--- a/src/awkward/_v2/contents/listoffsetarray.py
+++ b/src/awkward/_v2/contents/listoffsetarray.py
@@ -11,10 +11,14 @@ np = ak.nplike.NumpyMetadata.instance()
 
 class ListOffsetArray(Content):
     def __init__(self, offsets, content):
-        if not isinstance(offsets, Index) and offsets.dtype in (
-            np.dtype(np.int32),
-            np.dtype(np.uint32),
-            np.dtype(np.int64),
+        if not (
+            isinstance(offsets, Index)
+            and offsets.dtype
+            in (
+                np.dtype(np.int32),
+                np.dtype(np.uint32),
+                np.dtype(np.int64),
+            )
         ):
             raise TypeError(
                 "{0} 'offsets' must be an Index with dtype in (int32, uint32, int64), "
diff --git a/src/awkward/_v2/contents/unionarray.py b/src/awkward/_v2/contents/unionarray.py
index 747931f..cfc11ac 100644
--- a/src/awkward/_v2/contents/unionarray.py
+++ b/src/awkward/_v2/contents/unionarray.py
@@ -22,10 +22,14 @@ class UnionArray(Content):
                     type(self).__name__, repr(tags)
                 )
             )
-        if not isinstance(index, Index) and index.dtype in (
-            np.dtype(np.int32),
-            np.dtype(np.uint32),
-            np.dtype(np.int64),
+        if not (
+            isinstance(index, Index)
+            and index.dtype
+            in (
+                np.dtype(np.int32),
+                np.dtype(np.uint32),
+                np.dtype(np.int64),
+            )
         ):
             raise TypeError(
                 "{0} 'index' must be an Index with dtype in (int32, uint32, int64), "
-- 
2.43.0


From 2443a99431c560a3ee4ad6167697fe44e967bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:36 +0000
Subject: [PATCH 146/152] fix: content of a Python unmasked array

---
 src/awkward/_v2/contents/unmaskedarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/awkward/_v2/contents/unmaskedarray.py b/src/awkward/_v2/contents/unmaskedarray.py
index 9252b4e..8b8797d 100644
--- a/src/awkward/_v2/contents/unmaskedarray.py
+++ b/src/awkward/_v2/contents/unmaskedarray.py
@@ -17,8 +17,8 @@ class UnmaskedArray(Content):
         self._content = content
 
     @property
-    def contents(self):
-        return self._contents
+    def content(self):
+        return self._content
 
     def __len__(self):
         return len(self._content)
-- 
2.43.0


From 640f04e6fc9879378f0bd775d821f03074a4f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:36 +0000
Subject: [PATCH 147/152] fix: ranges of Python bit-masked arrays with an empty
 mask

---
 src/awkward/_v2/contents/bitmaskedarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/awkward/_v2/contents/bitmaskedarray.py b/src/awkward/_v2/contents/bitmaskedarray.py
index be146bb..90bf5f2 100644
--- a/src/awkward/_v2/contents/bitmaskedarray.py
+++ b/src/awkward/_v2/contents/bitmaskedarray.py
@@ -119,13 +119,13 @@ class BitMaskedArray(Content):
         # In general, slices must convert BitMaskedArray to ByteMaskedArray.
         if self._lsb_order:
             bytemask = (
-                self._mask.nplike.unpackbits(self._mask)
+                self._mask.nplike.unpackbits(self._mask.data)
                 .reshape(-1, 8)[:, ::-1]
                 .reshape(-1)
                 .view(np.int8)
             )
         else:
-            bytemask = self._mask.nplike.unpackbits(self._mask).view(np.int8)
+            bytemask = self._mask.nplike.unpackbits(self._mask.data).view(np.int8)
         start, stop, step = where.indices(len(self))
         return ByteMaskedArray(
             Index(bytemask[start:stop]),
-- 
2.43.0


From 4f6c0f64e94b2a68181cd0d323a3231ced4641ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:38 +0000
Subject: [PATCH 148/152] fix: ranges of regular arrays slice their identities

---
 src/libawkward/array/RegularArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index e09d909..bbde439 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -646,7 +646,7 @@ namespace awkward {
       identities = identities_.get()->getitem_range_nowrap(start, stop);
     }
     return std::make_shared<RegularArray>(
-      identities_,
+      identities,
       parameters_,
       content_.get()->getitem_range_nowrap(start*size_, stop*size_),
       size_,
-- 
2.43.0


From fd59b6e34cd1dd261c383ac264decc02092c77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:38 +0000
Subject: [PATCH 149/152] fix: identities of the contents of masked arrays in
 deeper levels

---
 src/libawkward/array/BitMaskedArray.cpp  | 8 ++++----
 src/libawkward/array/ByteMaskedArray.cpp | 8 ++++----
 src/libawkward/array/UnmaskedArray.cpp   | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/libawkward/array/BitMaskedArray.cpp b/src/libawkward/array/BitMaskedArray.cpp
index e52a9ec..ab4ddcd 100644
--- a/src/libawkward/array/BitMaskedArray.cpp
+++ b/src/libawkward/array/BitMaskedArray.cpp
@@ -431,8 +431,8 @@ namespace awkward {
           kernel::lib::cpu,   // DERIVE
           rawsubidentities->data(),
           rawidentities->data(),
-          rawidentities->length(),
-          content_.get()->length());
+          rawidentities->length()*rawidentities->width(),
+          content_.get()->length()*rawidentities->width());
         util::handle_error(err, classname(), identities_.get());
         content_.get()->setidentities(subidentities);
       }
@@ -449,8 +449,8 @@ namespace awkward {
           kernel::lib::cpu,   // DERIVE
           rawsubidentities->data(),
           rawidentities->data(),
-          rawidentities->length(),
-          content_.get()->length());
+          rawidentities->length()*rawidentities->width(),
+          content_.get()->length()*rawidentities->width());
         util::handle_error(err, classname(), identities_.get());
         content_.get()->setidentities(subidentities);
       }
diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index 7fb7c8e..0695829 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -415,8 +415,8 @@ namespace awkward {
           kernel::lib::cpu,   // DERIVE
           rawsubidentities->data(),
           rawidentities->data(),
-          rawidentities->length(),
-          content_.get()->length());
+          rawidentities->length()*rawidentities->width(),
+          content_.get()->length()*rawidentities->width());
         util::handle_error(err, classname(), identities_.get());
         content_.get()->setidentities(subidentities);
       }
@@ -433,8 +433,8 @@ namespace awkward {
           kernel::lib::cpu,   // DERIVE
           rawsubidentities->data(),
           rawidentities->data(),
-          rawidentities->length(),
-          content_.get()->length());
+          rawidentities->length()*rawidentities->width(),
+          content_.get()->length()*rawidentities->width());
         util::handle_error(err, classname(), identities_.get());
         content_.get()->setidentities(subidentities);
       }
diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index 39293cc..2f7022a 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -329,8 +329,8 @@ namespace awkward {
           kernel::lib::cpu,   // DERIVE
           rawsubidentities->data(),
           rawidentities->data(),
-          rawidentities->length(),
-          content_.get()->length());
+          rawidentities->length()*rawidentities->width(),
+          content_.get()->length()*rawidentities->width());
         util::handle_error(err, classname(), identities_.get());
         content_.get()->setidentities(subidentities);
       }
@@ -347,8 +347,8 @@ namespace awkward {
           kernel::lib::cpu,   // DERIVE
           rawsubidentities->data(),
           rawidentities->data(),
-          rawidentities->length(),
-          content_.get()->length());
+          rawidentities->length()*rawidentities->width(),
+          content_.get()->length()*rawidentities->width());
         util::handle_error(err, classname(), identities_.get());
         content_.get()->setidentities(subidentities);
       }
-- 
2.43.0


From ea09d65fc29b8f077c36155f205ef3636ee6caf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:38 +0000
Subject: [PATCH 150/152] fix: setidentities of records with contents longer
 than the array

---
 src/libawkward/array/RecordArray.cpp | 45 ++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 2ff920c..2d4b826 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -553,6 +553,45 @@ namespace awkward {
     }
   }
 
+  // contents may be longer than the RecordArray
+  template <typename ID>
+  const IdentitiesPtr
+  extend_identities_as(const IdentitiesOf<ID>* identities, int64_t length) {
+    std::shared_ptr<IdentitiesOf<ID>> out =
+      std::make_shared<IdentitiesOf<ID>>(Identities::newref(),
+                                         identities->fieldloc(),
+                                         identities->width(),
+                                         length);
+    struct Error err = kernel::Identities_extend<ID>(
+      kernel::lib::cpu,   // DERIVE
+      out.get()->data(),
+      identities->data(),
+      identities->length()*identities->width(),
+      length*identities->width());
+    util::handle_error(err, "RecordArray", identities);
+    return out;
+  }
+
+  static const IdentitiesPtr
+  extend_identities(const IdentitiesPtr& identities, int64_t length) {
+    if (identities.get()->length() >= length) {
+      return identities;
+    }
+    else if (Identities32* raw =
+             dynamic_cast<Identities32*>(identities.get())) {
+      return extend_identities_as<int32_t>(raw, length);
+    }
+    else if (Identities64* raw =
+             dynamic_cast<Identities64*>(identities.get())) {
+      return extend_identities_as<int64_t>(raw, length);
+    }
+    else {
+      throw std::runtime_error(
+        std::string("unrecognized Identities specialization")
+        + FILENAME(__LINE__));
+    }
+  }
+
   void
   RecordArray::setidentities(const IdentitiesPtr& identities) {
     if (identities.get() == nullptr) {
@@ -578,7 +617,8 @@ namespace awkward {
             std::pair<int64_t, std::string>(identities.get()->width() - 1,
                                             std::to_string(j)));
           contents_[j].get()->setidentities(
-            identities.get()->withfieldloc(fieldloc));
+            extend_identities(identities.get()->withfieldloc(fieldloc),
+                              contents_[j].get()->length()));
         }
       }
       else {
@@ -588,7 +628,8 @@ namespace awkward {
           fieldloc.push_back(std::pair<int64_t, std::string>(
             identities.get()->width() - 1, recordlookup_.get()->at(j)));
           contents_[j].get()->setidentities(
-            identities.get()->withfieldloc(fieldloc));
+            extend_identities(identities.get()->withfieldloc(fieldloc),
+                              contents_[j].get()->length()));
         }
       }
     }
-- 
2.43.0


From 9d445e2c508baae0502ca757a47444f46a2aef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:38 +0000
Subject: [PATCH 151/152] fix: rows and new axes of NumpyArrays do not carry
 identities of another length

---
 src/libawkward/array/NumpyArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index ada1f22..b7d97c5 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -1231,7 +1231,7 @@ namespace awkward {
     const std::vector<ssize_t> shape(std::next(shape_.begin()), shape_.end());
     const std::vector<ssize_t> strides(std::next(strides_.begin()), strides_.end());
     IdentitiesPtr identities;
-    if (identities_.get() != nullptr) {
+    if (identities_.get() != nullptr  &&  shape.empty()) {
       if (at >= identities_.get()->length()) {
         util::handle_error(
           failure("index out of range", kSliceNone, at, FILENAME_C(__LINE__)),
@@ -4717,7 +4717,7 @@ namespace awkward {
     outstrides.insert(outstrides.end(),
                       out.strides_.begin(),
                       out.strides_.end());
-    return NumpyArray(out.identities_,
+    return NumpyArray(Identities::none(),
                       out.parameters_,
                       out.ptr_,
                       outshape,
-- 
2.43.0


From a35741e0e1eb38f7eb083fad5864f2aaa30ba824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:09 +0000
Subject: [PATCH 152/152] fix: to_arrow and packed of unions with more index
 than tags

---
 src/awkward/operations/convert.py   | 2 +-
 src/awkward/operations/structure.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 9473bdc..918dfce 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2287,7 +2287,7 @@ def to_arrow(
             ),
         ):
             tags = numpy.asarray(layout.tags)
-            index = numpy.asarray(layout.index)
+            index = numpy.asarray(layout.index)[: len(tags)]
             copied_index = False
             if mask is not None:
                 bytemask = (
diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 30eabb9..e0e0e1b 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2357,7 +2357,7 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
             # Pack simplified layout
             tags = nplike.asarray(layout.tags)
-            index = nplike.asarray(layout.index)
+            index = nplike.asarray(layout.index)[: len(tags)]
 
             new_contents = [None] * len(layout.contents)
             new_index = nplike.zeros_like(index)
-- 
2.43.0

