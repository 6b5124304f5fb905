From 6069b7babbc9be34e758128172232f04950db79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 001/127] fix: DiscreteSpace::erase ignored ranges that start
 past the minimum of the erased range

---
 code/include/swoc/DiscreteRange.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index cfd8dba..eb03470 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1275,6 +1275,9 @@ template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
   Node *n = this->lower_node(range.min()); // current node.
+  if (nullptr == n) { // all ranges start after the minimum, but may still overlap.
+    n = this->head();
+  }
   while (n) {
     auto nn = next(n);            // cache in case @a n disappears.
     if (n->min() > range.max()) { // cleared the target range, done.
-- 
2.43.0


From 035cfb228fc0eae95b6bad651841b7c7dcbc8cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 002/127] fix: DiscreteSpace::blend filled the gap left of a
 range into a non-adjacent range, or blended it twice

---
 code/include/swoc/DiscreteRange.h | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index eb03470..2bac0eb 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1665,24 +1665,15 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
     // Invariant: @n has right overlap with @a remaining
 
-    // If there's a gap on the left, fill from @a r.min to @a n.min - 1
+    // If there's a gap on the left, fill from @a r.min to @a n.min - 1. This must not change @a n, which
+    // still has to be blended. Use @a pred only if it touches the gap.
     if (plain_color_p && remaining.min() < n->min()) {
-      if (n->payload() == plain_color) {
-        if (pred && pred->payload() == n->payload()) {
-          auto pred_min{pred->min()};
-          this->remove(pred);
-          n->assign_min(pred_min);
-        } else {
-          n->assign_min(remaining.min());
-        }
+      auto n_min_minus_1{n->min()};
+      --n_min_minus_1;
+      if (pred && pred->range().is_left_adjacent_to(remaining) && pred->payload() == plain_color) {
+        pred->assign_max(n_min_minus_1);
       } else {
-        auto n_min_minus_1{n->min()};
-        --n_min_minus_1;
-        if (pred && pred->payload() == plain_color) {
-          pred->assign_max(n_min_minus_1);
-        } else {
-          this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
-        }
+        this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
       }
     }
 
@@ -1703,7 +1694,11 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
       if (right_ext_p) {
         if (n->payload() == fill->payload()) {
-          n->assign_min(fill->min());
+          if (pred_adj_p) { // same color on both sides of the boundary, collapse.
+            auto pred_min = pred->min();
+            this->remove(pred);
+            n->assign_min(pred_min);
+          }
         } else {
           n->assign_min(range_max_plus_1);
           if (pred_adj_p) {
-- 
2.43.0


From 1e4540a96a46c9938c88f931efdbddb01b89ffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 003/127] fix: DiscreteSpace::blend wrapped past the maximum
 metric value and blended the start of the space

---
 code/include/swoc/DiscreteRange.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 2bac0eb..3993bf1 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1604,6 +1604,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
             this->insert_after(fn, _fa.make(++metric_type(remaining.max()), n_max, n->payload()));
             return *this;
           }
+          if (n_max == remaining.max()) { // nothing left, and @a n_max may be the maximum metric.
+            return *this;
+          }
           n = fn; // skip to use new node as current node.
         }
         remaining.assign_min(++metric_type(n->max())); // going to fill up n->max(), clip target.
@@ -1684,7 +1687,10 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     unique_node fill{_fa.make(n->min(), max, n->payload()), node_cleaner};
     bool fill_p = blender(fill->payload(), color); // fill or clear?
     auto next_n = next(n);                         // cache this in case @a n is removed.
-    remaining.assign_min(++METRIC{fill->max()});   // Update what is left to fill.
+    bool done_p    = !(max < remaining.max());     // all of the target range has been processed.
+    if (!done_p) {                                 // Update what is left to fill. Can't wrap if not done.
+      remaining.assign_min(++metric_type(max));
+    }
 
     // Clean up the range for @a n
     if (fill_p) {
@@ -1725,6 +1731,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       this->remove(n);
     }
 
+    if (done_p) {
+      return *this;
+    }
     // Everything up to @a n.max is correct, time to process next node.
     n = next_n;
   }
-- 
2.43.0


From d427b9831bb586ceeefd4a993043be935425f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 004/127] fix: DiscreteSpace::blend leaked the payload of an
 unused temporary node

---
 code/include/swoc/DiscreteRange.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 3993bf1..7452ed4 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1613,7 +1613,6 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       } else {                                         // clear, don't fill.
         auto n_r = n->range();                         // cache to avoid ordering requirements.
         if (n_r.max() > remaining.max()) {             // overhang on the right, must split.
-          fill.release();                              // not going to use it,
           n->assign_min(++metric_type(remaining.max()));
           this->insert_before(n, _fa.make(n_r.min(), --metric_type(remaining.min()), n->payload()));
           return *this;
-- 
2.43.0


From e99bf3b00f768f868532361f9a500c9c4cf543e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 005/127] fix: DiscreteSpace::blend filled unmapped values in
 spite of a rejected color

---
 code/include/swoc/DiscreteRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 7452ed4..acd1ca2 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1648,7 +1648,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     if (!right_overlap_p) {
       // @a pred has the same color as would be used for unmapped values
       // and is adjacent to @a remaining.
-      bool pred_plain_colored_p = pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
+      bool pred_plain_colored_p = plain_color_p && pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
 
       if (right_adj_p && n_plain_colored_p) { // can pull @a n left to cover
         n->assign_min(remaining.min());
-- 
2.43.0


From 434daf01aefef1b7f5af8aa69e748cb44eb57b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:56 +0000
Subject: [PATCH 006/127] fix: DiscreteSpace::lower_bound and upper_bound did
 not compile

---
 code/include/swoc/DiscreteRange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index acd1ca2..4a97ba7 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1170,14 +1170,14 @@ template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::lower_bound(METRIC const &m) -> iterator {
   auto n = this->lower_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::upper_bound(METRIC const &m) -> iterator {
   auto n = this->upper_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
-- 
2.43.0


From 250b7dbe4b41dd807ba9ce4d7e08ebd7dc13b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 007/127] fix: DiscreteSpace::blend left touching ranges of
 equal payload at the end of the blended range

---
 code/include/swoc/DiscreteRange.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 4a97ba7..d17c337 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1557,6 +1557,15 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
   // Used to hold a temporary blended node - @c release if put in space, otherwise cleaned up.
   using unique_node = std::unique_ptr<Node, decltype(node_cleaner)>;
 
+  // Collapse @a node with its successor if those are adjacent and the same color.
+  auto coalesce_right = [&](Node *node) -> void {
+    if (Node *succ = next(node); succ && node->range().is_left_adjacent_to(succ->range()) && node->payload() == succ->payload()) {
+      auto succ_max = succ->max();
+      this->remove(succ);
+      node->assign_max(succ_max);
+    }
+  };
+
   // Rightmost node of interest with n->min() <= range.min().
   Node *n = this->lower_node(range.min());
 
@@ -1605,6 +1614,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
             return *this;
           }
           if (n_max == remaining.max()) { // nothing left, and @a n_max may be the maximum metric.
+            coalesce_right(fn);
             return *this;
           }
           n = fn; // skip to use new node as current node.
@@ -1731,6 +1741,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     }
 
     if (done_p) {
+      if (fill_p) {
+        coalesce_right(next_n ? prev(next_n) : _list.tail());
+      }
       return *this;
     }
     // Everything up to @a n.max is correct, time to process next node.
-- 
2.43.0


From 02bcf1dbc290b502682410ca866703de59df7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 008/127] fix: DiscreteRange::left_edge_relationship compared
 with the wrong edge

---
 code/include/swoc/DiscreteRange.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index d17c337..4d82606 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -454,10 +454,11 @@ DiscreteRange<T>::hull(DiscreteRange::self_type const &that) const {
 template <typename T>
 auto
 DiscreteRange<T>::left_edge_relationship(self_type const &that) const -> EdgeRelation {
-  if (_max < that._max) {
-    return ++metric_type(_max) < that._max ? EdgeRelation::GAP : EdgeRelation::ADJ;
+  if (_max < that._min) {
+    metric_type max(_max); // some built in integer types don't support increment on rvalues.
+    return ++max < that._min ? EdgeRelation::GAP : EdgeRelation::ADJ;
   }
-  return _min >= that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
+  return _min > that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
 }
 
 template <typename T>
-- 
2.43.0


From 035df366eb2f597eec2af0323f9fe774deb378d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 009/127] fix: DiscreteRange::relationship, has_union and
 operator^ did not compile

---
 code/include/swoc/DiscreteRange.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 4d82606..2f0e2cc 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -465,7 +465,7 @@ template <typename T>
 auto
 DiscreteRange<T>::relationship(self_type const &that) const -> Relation {
   Relation retval = Relation::NONE;
-  if (this->has_intersection(that)) {
+  if (this->has_intersection_with(that)) {
     if (*this == that)
       retval = Relation::EQUAL;
     else if (this->is_subset_of(that))
@@ -569,7 +569,7 @@ DiscreteRange<T>::max() const {
 template <typename T>
 bool
 DiscreteRange<T>::has_union(DiscreteRange::self_type const &that) const {
-  return this->has_intersection(that) || this->is_adjacent_to(that);
+  return this->has_intersection_with(that) || this->is_adjacent_to(that);
 }
 
 template <typename T>
@@ -645,7 +645,7 @@ operator!=(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
 template <typename T>
 bool
 operator^(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
-  return lhs.has_intersection(rhs);
+  return lhs.has_intersection_with(rhs);
 }
 
 /** Containment ordering.
-- 
2.43.0


From 7ffec8c08865114f1858f4986ca3ef9c640975b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 010/127] fix: DiscreteRange::has_intersection_with found
 common values with an empty range

---
 code/include/swoc/DiscreteRange.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 2f0e2cc..f675743 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -9,6 +9,7 @@
 
 #pragma once
 #include <limits>
+#include <algorithm>
 #include <functional>
 
 #include "swoc/swoc_version.h"
@@ -582,7 +583,7 @@ DiscreteRange<T>::operator&=(DiscreteRange::self_type const &that) {
 template <typename T>
 bool
 DiscreteRange<T>::has_intersection_with(DiscreteRange::self_type const &that) const {
-  return (that._min <= _min && _min <= that._max) || (_min <= that._min && that._min <= _max);
+  return std::max(_min, that._min) <= std::min(_max, that._max); // correct for empty ranges also.
 }
 
 template <typename T>
-- 
2.43.0


From e04a152a64d7894984e5166847d8b5daa4b85762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 011/127] fix: MemArena::thaw added an active static block
 again, corrupting the block list and its allocations

---
 code/src/MemArena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 1d4d708..96e770e 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -133,7 +133,8 @@ MemArena &
 MemArena::thaw() {
   this->destroy_frozen();
   _frozen_reserved = _frozen_allocated = 0;
-  if (_static_block) {
+  // Only bring back the static block if it isn't already active.
+  if (_static_block && !_active.contains(_static_block)) {
     _static_block->discard();
     _active.prepend(_static_block);
     _active_reserved += _static_block->remaining();
-- 
2.43.0


From 0398c1841ecf075be1a21f696f3d1a109f95c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 012/127] fix: MemArena move assignment lost track of the
 static block and freed it

---
 code/src/MemArena.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 96e770e..a17e06c 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -66,6 +66,8 @@ MemArena::operator=(swoc::MemArena::self_type &&that) noexcept {
   std::swap(_reserve_hint, that._reserve_hint);
   _active = std::move(that._active);
   _frozen = std::move(that._frozen);
+  _static_block = that._static_block;
+  that._static_block = nullptr;
   return *this;
 }
 
-- 
2.43.0


From 8b68af3a02a6b1513615e0581ea36545fffbb1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 013/127] fix: MemArena::require ignored the alignment padding
 needed in a new block, making strongly aligned allocations throw

---
 code/src/MemArena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index a17e06c..915ef3e 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -165,7 +165,8 @@ MemArena::require(size_t n, size_t align) {
     }
   }
   if (spot == _active.end()) {   // no block has enough free space
-    block = this->make_block(n); // assuming a new block is sufficiently aligned.
+    // A new block has only the alignment of malloc, stronger alignment can require padding.
+    block = this->make_block(align > alignof(Block) ? n + align - 1 : n);
     _active.prepend(block);
   } else if (spot != _active.begin()) {
     // big enough space, move to the head of the list.
-- 
2.43.0


From b0ccf0b370e67f819d99f0a845a5d6a948932690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 014/127] fix: MemArena::remnant_span returned a span that was
 not of the requested size

---
 code/include/swoc/MemArena.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index e0b25fb..8d323ab 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -696,8 +696,7 @@ inline MemSpan<char> MemArena::localize_c(char const * s) {
 template <typename T>
 MemSpan<T>
 MemArena::remnant_span(size_t n) {
-  auto span = this->require(sizeof(T) * n, alignof(T)).remnant();
-  return span.remove_prefix(Block::align_padding(span.data(), alignof(T))).rebind<T>();
+  return this->remnant(sizeof(T) * n, alignof(T)).template rebind<T>();
 }
 
 template <>
-- 
2.43.0


From 09bda50174eff74c38644b98251f4f54bffd48e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 015/127] fix: MemArena::remnant ignored the requested
 alignment

---
 code/include/swoc/MemArena.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 8d323ab..4432443 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -707,7 +707,9 @@ MemArena::remnant_span<void>(size_t n) {
 
 inline MemSpan<void>
 MemArena::remnant(size_t n, size_t align) {
-  return this->require(n, align).remnant().prefix(n);
+  auto span = this->require(n, align).remnant();
+  span.remove_prefix(Block::align_padding(span.data(), align));
+  return span.prefix(n);
 }
 
 inline size_t
-- 
2.43.0


From 7aff5f9d9a74397204721ac24750167aad0d047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 016/127] fix: MemArena::localize_c read past the end of its
 source and returned the terminator

---
 code/include/swoc/MemArena.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 4432443..330501f 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -684,9 +684,9 @@ inline MemSpan<char> MemArena::localize(char const * s) {
 
 inline MemSpan<char> MemArena::localize_c(MemSpan<char const> s) {
   auto span = this->alloc(s.size() + 1).rebind<char>();
-  memcpy(span.data(), s.data(), span.size());
+  memcpy(span.data(), s.data(), s.size());
   span[s.size()] = '\0';
-  return { span.data(), span.size() };
+  return { span.data(), s.size() };
 }
 
 inline MemSpan<char> MemArena::localize_c(char const * s) {
-- 
2.43.0


From d829530ed442367c64960096596948095778d713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 017/127] fix: Vectray fixed storage was not aligned for its
 elements

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index e2e6485..80f1ac9 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -52,7 +52,7 @@ public:                                                              // STL comp
 
   /// Internal (fixed) storage.
   struct FixedStore {
-    std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
+    alignas(T) std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
     size_t _count = 0;                         ///< Number of valid elements.
     allocator_type _a;                         ///< Allocator instance - used for construction.
 
-- 
2.43.0


From b89dba1c5f7e4723f8ca61ad188a400d811c0cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 018/127] fix: Vectray fixed storage exposed and destroyed
 elements that were never constructed

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 80f1ac9..679f911 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -263,7 +263,7 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedSto
 template <typename T, size_t N, class A>
 MemSpan<T>
 Vectray<T, N, A>::FixedStore::span() {
-  return MemSpan<std::byte>(_raw).template rebind<T>();
+  return {this->data(), _count};
 }
 
 template <typename T, size_t N, class A>
-- 
2.43.0


From 3532af964d88988d8710b57be2a4d73bf0d790d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 019/127] fix: Vectray constant element access and data() did
 not compile

---
 code/include/swoc/Vectray.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 679f911..0b9fe91 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -69,6 +69,9 @@ public:                                                              // STL comp
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
+    /// @return A span containing the valid elements.
+    MemSpan<T const> span() const;
+
     /// @return A pointer to the data.
     T *data();
 
@@ -266,6 +269,12 @@ Vectray<T, N, A>::FixedStore::span() {
   return {this->data(), _count};
 }
 
+template <typename T, size_t N, class A>
+MemSpan<T const>
+Vectray<T, N, A>::FixedStore::span() const {
+  return {this->data(), _count};
+}
+
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::FixedStore::data() {
@@ -275,7 +284,7 @@ Vectray<T, N, A>::FixedStore::data() {
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::FixedStore::data() const {
-  return reinterpret_cast<T *>(_raw.data());
+  return reinterpret_cast<T const *>(_raw.data());
 }
 
 template <typename T, size_t N, typename A>
@@ -287,7 +296,7 @@ Vectray<T, N, A>::operator[](size_type idx) {
 template <typename T, size_t N, typename A>
 T const &
 Vectray<T, N, A>::operator[](size_type idx) const {
-  return this->items[idx];
+  return this->items()[idx];
 }
 
 template <typename T, size_t N, typename A>
@@ -404,7 +413,7 @@ Vectray<T, N, A>::transfer(size_type rN) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::items() const -> const_span {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.span(); },
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.span(); },
                                      [](DynamicStore const &ds) { return const_span(ds.data(), ds.size()); }},
                     _store);
 }
@@ -412,14 +421,14 @@ Vectray<T, N, A>::items() const -> const_span {
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::data() {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore &fs) { return fs.data(); }, [](DynamicStore &ds) { return ds.data(); }},
                     _store);
 }
 
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::data() const {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
                     _store);
 }
 
-- 
2.43.0


From c5d1456f3670584c9e213ec39680ae13395b980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 020/127] fix: Vectray::pop_back did not compile

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 0b9fe91..35e14e6 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -350,7 +350,7 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::pop_back() -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.span()[--fs._count]); },
+  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.data() + --fs._count); },
                               [&](DynamicStore &ds) -> void { ds.pop_back(); }},
              _store);
   return *this;
-- 
2.43.0


From 2284e835a7c34662a76f1027a8def3f289d8ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 021/127] fix: Vectray copied and moved fixed elements as raw
 bytes

---
 code/include/swoc/Vectray.h | 69 +++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 35e14e6..9f43d42 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -64,8 +64,23 @@ public:                                                              // STL comp
      */
     explicit FixedStore(allocator_type const &a) : _a(a) {}
 
+    /// Copy construct the elements of @a that.
+    FixedStore(FixedStore const &that);
+
+    /// Move construct the elements of @a that, which becomes empty.
+    FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>);
+
+    /// Replace the elements by copies of the elements of @a that.
+    FixedStore &operator=(FixedStore const &that);
+
+    /// Replace the elements by those of @a that, which becomes empty.
+    FixedStore &operator=(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>);
+
     ~FixedStore();
 
+    /// Destroy all elements.
+    void clear();
+
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
@@ -103,6 +118,18 @@ public:
    */
   explicit Vectray(size_type n, allocator_type const &alloc = allocator_type{});
 
+  /// Copy constructor.
+  Vectray(self_type const &that) = default;
+
+  /// Move constructor.
+  Vectray(self_type &&that) = default;
+
+  /// Copy assignment.
+  self_type &operator=(self_type const &that) = default;
+
+  /// Move assignment.
+  self_type &operator=(self_type &&that) = default;
+
   /// Move constructor for difference static sized instance.
   template <size_t M> Vectray(Vectray<T, M, A> &&that);
 
@@ -258,9 +285,51 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
 }
 
 template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedStore() {
+  this->clear();
+}
+
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that) : FixedStore(that._a) {
+  *this = that;
+}
+
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>) : FixedStore(that._a) {
+  *this = std::move(that);
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore const &that) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (auto const &item : that.span()) {
+      new (this->data() + _count) T(item);
+      ++_count;
+    }
+  }
+  return *this;
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (auto &item : that.span()) {
+      new (this->data() + _count) T(std::move(item));
+      ++_count;
+    }
+    that.clear();
+  }
+  return *this;
+}
+
+template <typename T, size_t N, class A>
+void
+Vectray<T, N, A>::FixedStore::clear() {
   for (auto &item : this->span()) {
     std::destroy_at(std::addressof(item));
   }
+  _count = 0;
 }
 
 template <typename T, size_t N, class A>
-- 
2.43.0


From 63c242590c8bfdc021efc91054c82f0bd0a2daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 022/127] fix: Vectray move from an instance of different
 static size did not compile and dropped the elements

---
 code/include/swoc/Vectray.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 9f43d42..cbfda9a 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -234,6 +234,8 @@ public:
   void reserve(size_type n);
 
 protected:
+  template <typename, size_t, class> friend class Vectray; // Access for move from different static size.
+
   /// Content storage.
   /// @note This is constructed as fixed but can change to dynamic. It can never change back.
   std::variant<FixedStore, DynamicStore> _store;
@@ -275,11 +277,9 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
     _store = std::move(std::get<DYNAMIC>(that._store));
   } else {
     auto span = std::get<FIXED>(that._store).span();
-    if (span.size() > N) {
-    } else {
-      for (auto &&item : span) {
-        this->template emplace_back(std::move(item));
-      }
+    this->reserve(span.size());
+    for (auto &&item : span) {
+      this->emplace_back(std::move(item));
     }
   }
 }
-- 
2.43.0


From f24f0d2a2d4840a795db6404f1707cbd28de83aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 023/127] fix: Vectray used a destroyed element when appending
 one of its elements moved it to dynamic storage

---
 code/include/swoc/Vectray.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index cbfda9a..ddd15b7 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -375,8 +375,9 @@ Vectray<T, N, A>::push_back(const T &t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(t); // A::traits ?
                                 } else {
+                                  T tmp(t); // @a t may be an element, which doesn't survive the transfer.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(t);
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(t); }},
@@ -391,8 +392,9 @@ Vectray<T, N, A>::push_back(T &&t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::move(t)); // A::traits ?
                                 } else {
+                                  T tmp(std::move(t)); // @a t may be an element, which doesn't survive the transfer.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(std::move(t));
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(std::move(t)); }},
@@ -410,7 +412,10 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
       new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::forward<Args>(args)...); // A::traits ?
       return *this;
     }
-    this->transfer(); // transfer to dynamic and fall through to add item.
+    T tmp(std::forward<Args>(args)...); // arguments may be elements, which don't survive the transfer.
+    this->transfer();                   // transfer to dynamic and add item.
+    std::get<DYNAMIC>(_store).emplace_back(std::move(tmp));
+    return *this;
   }
   std::get<DYNAMIC>(_store).emplace_back(std::forward<Args>(args)...);
   return *this;
-- 
2.43.0


From 78a6584b9e0aa3939851cf1a8d769fdbdf7e8950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 024/127] fix: Vectray counted an element whose constructor
 threw

---
 code/include/swoc/Vectray.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index ddd15b7..2ab4c5d 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -373,7 +373,8 @@ auto
 Vectray<T, N, A>::push_back(const T &t) -> self_type & {
   std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void {
                                 if (fs._count < N) {
-                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(t); // A::traits ?
+                                  new (fs.data() + fs._count) T(t); // A::traits ?
+                                  ++fs._count;
                                 } else {
                                   T tmp(t); // @a t may be an element, which doesn't survive the transfer.
                                   this->transfer();
@@ -390,7 +391,8 @@ auto
 Vectray<T, N, A>::push_back(T &&t) -> self_type & {
   std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void {
                                 if (fs._count < N) {
-                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::move(t)); // A::traits ?
+                                  new (fs.data() + fs._count) T(std::move(t)); // A::traits ?
+                                  ++fs._count;
                                 } else {
                                   T tmp(std::move(t)); // @a t may be an element, which doesn't survive the transfer.
                                   this->transfer();
@@ -409,7 +411,8 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
   if (_store.index() == FIXED) {
     auto &fs{std::get<FIXED>(_store)};
     if (fs._count < N) {
-      new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::forward<Args>(args)...); // A::traits ?
+      new (fs.data() + fs._count) T(std::forward<Args>(args)...); // A::traits ?
+      ++fs._count;
       return *this;
     }
     T tmp(std::forward<Args>(args)...); // arguments may be elements, which don't survive the transfer.
-- 
2.43.0


From fb83af16cd57f19fb7b0f72c98c2c268a3fa5795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 025/127] fix: Vectray ignored the allocator when constructed
 with a count

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 2ab4c5d..8b11341 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -264,7 +264,7 @@ protected:
 
 template <typename T, size_t N, typename A> Vectray<T, N, A>::Vectray() {}
 
-template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray() {
+template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray(alloc) {
   this->reserve(n);
   while (n-- > 0) {
     this->emplace_back();
-- 
2.43.0


From 1efc6a4a5e56a9c788b1c1f9ce5095bb6a030419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 026/127] fix: Vectray move construction with allocator was not
 defined

---
 code/include/swoc/Vectray.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 8b11341..4587076 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -284,6 +284,13 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
   }
 }
 
+template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(self_type &&that, allocator_type const &a) : Vectray(a) {
+  this->reserve(that.size());
+  for (auto &item : that.items()) {
+    this->emplace_back(std::move(item));
+  }
+}
+
 template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedStore() {
   this->clear();
 }
-- 
2.43.0


From 352d61fb1e01a7d03ac93e9ae21767efa681ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 027/127] fix: Vectray reference and pointer types were not
 those of the elements

---
 code/include/swoc/Vectray.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 4587076..ce2ab0b 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -39,10 +39,10 @@ template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
 
 public:                                                              // STL compliance types.
   using value_type      = T;                                         ///< Element type for container.
-  using reference       = std::remove_reference<T> &;                ///< Reference to element.
-  using const_reference = std::remove_reference<T> const &;          ///< Reference to constant element.
-  using pointer         = std::remove_reference<T> *;                ///< Pointer to element.
-  using const_pointer   = std::remove_reference<T> const *;          ///< Pointer to constant element.
+  using reference       = std::remove_reference_t<T> &;              ///< Reference to element.
+  using const_reference = std::remove_reference_t<T> const &;        ///< Reference to constant element.
+  using pointer         = std::remove_reference_t<T> *;              ///< Pointer to element.
+  using const_pointer   = std::remove_reference_t<T> const *;        ///< Pointer to constant element.
   using allocator_type  = A;                                         ///< Dynamic storage allocator.
   using size_type       = typename vector_type::size_type;           ///< Type for element count.
   using difference_type = typename vector_type::difference_type;     ///< Iterator difference.
-- 
2.43.0


From e61aca6135259c45a391370c9e8f45a1cbb1da3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 028/127] fix: IntrusiveDList::erase of a range did not
 compile, did not update the count and failed for an empty range

---
 code/include/swoc/IntrusiveDList.h | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/code/include/swoc/IntrusiveDList.h b/code/include/swoc/IntrusiveDList.h
index 2b5b0a2..5ee8d54 100644
--- a/code/include/swoc/IntrusiveDList.h
+++ b/code/include/swoc/IntrusiveDList.h
@@ -924,28 +924,11 @@ IntrusiveDList<L>::erase(const iterator &loc) -> iterator {
 template <typename L>
 auto
 IntrusiveDList<L>::erase(const iterator &first, const iterator &limit) -> iterator {
-  value_type *spot = first;
-  value_type *prev{L::prev_ptr(spot)};
-  if (prev) {
-    L::next_ptr(prev) = limit;
+  value_type *spot = first._v;
+  while (spot != limit._v) {
+    spot = this->erase(spot);
   }
-  if (spot == _head) {
-    _head = limit;
-  }
-  // tail is only updated if @a limit is @a end (e.g., @c nullptr).
-  if (nullptr == limit) {
-    _tail = prev;
-  } else {
-    L::prev_ptr(limit) = prev;
-  }
-  // Clear links in removed elements.
-  while (spot != limit) {
-    value_type *target{spot};
-    spot                = L::next_ptr(spot);
-    L::prev_ptr(target) = L::next_ptr(target) = nullptr;
-  };
-
-  return {limit._v, this};
+  return limit;
 }
 
 template <typename L>
-- 
2.43.0


From 1a5affdede343baa19e0cc672f7cc7c2986242bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 029/127] fix: IntrusiveHashMap::erase did not count the
 removal of an element that is not first in its bucket

---
 code/include/swoc/IntrusiveHashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 4bbe3b6..231788b 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -555,6 +555,8 @@ IntrusiveHashMap<H>::erase(iterator const &loc) -> iterator {
       b->_v = nv;
       --b->_count;
     }
+  } else {
+    --b->_count;
   }
   _list.erase(loc);
   return zret;
-- 
2.43.0


From b332eb9a792448ab289b6c74b2b69a2308ff7d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 030/127] fix: IntrusiveHashMap::erase of a range did not
 compile and left buckets referring to erased elements

---
 code/include/swoc/IntrusiveHashMap.h | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 231788b..38500f8 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -577,21 +577,10 @@ template <typename H>
 auto
 IntrusiveHashMap<H>::erase(iterator const &start, iterator const &limit) -> iterator {
   auto spot{start};
-  Bucket *bucket{this->bucket_for(spot)};
   while (spot != limit) {
-    auto target         = bucket;
-    bucket              = bucket->_link._next; // bump now to avoid forward iteration problems in case of bucket removal.
-    value_type *v_limit = bucket ? bucket->_v : nullptr;
-    while (spot != v_limit && spot != limit) {
-      --(target->_count);
-      ++spot;
-    }
-    if (target->_count == 0) {
-      _active_buckets.erase(target);
-    }
+    spot = this->erase(spot);
   }
-  _list.erase(start, limit);
-  return _list.iterator_for(limit); // convert from const_iterator back to iterator
+  return spot;
 };
 
 template <typename H>
-- 
2.43.0


From 9a44184e9fe5c79e800eadb950886c09761ec514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 031/127] fix: IntrusiveHashMap without buckets (requested, or
 moved from) divided by zero

---
 code/include/swoc/IntrusiveHashMap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 38500f8..4fc3c9d 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -390,6 +390,9 @@ template <typename H> IntrusiveHashMap<H>::IntrusiveHashMap(size_t n) {
 template <typename H>
 auto
 IntrusiveHashMap<H>::bucket_for(key_type key) -> Bucket * {
+  if (_table.empty()) { // constructed without buckets, or moved from.
+    _table.resize(PRIME[0]);
+  }
   return &_table[H::hash_of(key) % _table.size()];
 }
 
-- 
2.43.0


From 926397adbebf4b94c49e44b2659d0d5b4a514a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 032/127] fix: IntrusiveHashMap const equal_range did not link

---
 code/include/swoc/IntrusiveHashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 4fc3c9d..994fb60 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -367,6 +367,8 @@ IntrusiveHashMap<H>::range::end() const -> iterator const & {
   return super_type::second;
 }
 
+template <typename H> IntrusiveHashMap<H>::const_range::const_range(range const &r) : super_type(r.first, r.second) {}
+
 template <typename H>
 auto
 IntrusiveHashMap<H>::const_range::begin() const -> const_iterator const & {
-- 
2.43.0


From 684b5105213872ba509c3bc8f52d9a6fb574cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 033/127] fix: TextView::split_suffix took everything if the
 size is larger than the view

---
 code/include/swoc/TextView.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 01ddb65..fcbf4fd 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1445,10 +1445,11 @@ TextView::remove_suffix_if(F const &pred) {
 
 inline TextView
 TextView::split_suffix(size_t n) {
-  self_type zret;
-  n    = std::min(n, this->size());
-  zret = this->suffix(n);
-  this->remove_suffix(n + 1);
+  self_type zret; // default to empty return.
+  if (n <= this->size()) {
+    zret = this->suffix(n);
+    this->remove_suffix(std::min(n + 1, this->size()));
+  }
   return zret;
 }
 
-- 
2.43.0


From e46169ed68d24e2114a69ccfcfe42b1008e73707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 034/127] fix: TextView::split_suffix_if used the offset of the
 delimiter as the size of the suffix

---
 code/include/swoc/TextView.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index fcbf4fd..25b49e4 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1473,7 +1473,8 @@ TextView::split_suffix_at(std::string_view const &delimiters) -> self_type {
 template <typename F>
 TextView::self_type
 TextView::split_suffix_if(F const &pred) {
-  return this->split_suffix(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return npos == idx ? self_type{} : this->split_suffix(this->size() - (idx + 1));
 }
 
 inline TextView
-- 
2.43.0


From 01687d9b59a4f8de085731f9729faf07e1e4a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 035/127] fix: TextView::take_suffix used the size as an
 offset, and take_suffix_if an offset as a character

---
 code/include/swoc/TextView.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 25b49e4..3d04ad2 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1479,8 +1479,9 @@ TextView::split_suffix_if(F const &pred) {
 
 inline TextView
 TextView::take_suffix(size_t n) {
-  self_type zret{*this};
-  *this = zret.split_prefix(n);
+  n              = std::min(n, this->size());
+  self_type zret = this->suffix(n);
+  this->remove_suffix(std::min(n + 1, this->size()));
   return zret;
 }
 
@@ -1491,18 +1492,21 @@ TextView::take_suffix(int n) {
 
 inline TextView
 TextView::take_suffix_at(char c) {
-  return this->take_suffix(this->rfind(c));
+  auto idx = this->rfind(c);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 inline TextView
 TextView::take_suffix_at(std::string_view const &delimiters) {
-  return this->take_suffix(this->find_last_of(delimiters));
+  auto idx = this->find_last_of(delimiters);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 template <typename F>
 TextView::self_type
 TextView::take_suffix_if(F const &pred) {
-  return this->take_suffix_at(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 template <typename F>
-- 
2.43.0


From a4407ba49fd176a0ffe0f8e98c156230835f0cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 036/127] fix: TextView::clip_suffix_of clipped all but the
 matching suffix and read before the view

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 3d04ad2..bd58947 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1763,8 +1763,8 @@ TextView::clip_prefix_of(F const &pred) {
 template <typename F>
 TextView::self_type
 TextView::clip_suffix_of(F const &pred) {
-  size_t idx = this->size() - 1;
-  for (auto spot = this->data() + idx, limit = this->data(); spot >= limit && pred(*spot); --spot, --idx)
+  size_t idx = 0;
+  for (auto spot = this->data_end(), limit = this->data(); spot > limit && pred(*--spot); ++idx)
     ; // empty
   TextView token = this->suffix(idx);
   this->remove_suffix(idx);
-- 
2.43.0


From b178cf3e8973943e43fa2c23033293c36adf0f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 037/127] fix: memcmp, strcmp and strcasecmp of views put a
 longer view before its prefix, and the less-than functors failed for other
 values than -1

---
 code/src/string_view_util.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 3c483ca..0740c31 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -14,16 +14,16 @@ memcmp(std::string_view const &lhs, std::string_view const &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // same memory, obviously equal.
     return 0;
   }
 
   int r = ::memcmp(lhs.data(), rhs.data(), n);
-  return r ? r : zret;
+  return r < 0 ? -1 : r > 0 ? 1 : zret;
 }
 
 int
@@ -33,15 +33,15 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // the same memory, obviously equal.
     return 0;
   }
 
   int r = ::strncasecmp(lhs.data(), rhs.data(), n);
 
-  return r ? r : zret;
+  return r < 0 ? -1 : r > 0 ? 1 : zret;
 }
-- 
2.43.0


From 6a899ddbfffeba730cfeaa0fbe37bd373fc9a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 038/127] fix: strcasecmp of views ignored everything past a
 nul character

---
 code/src/string_view_util.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 0740c31..d32b08b 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -6,6 +6,7 @@
 */
 
 #include "swoc/string_view_util.h"
+#include <cctype>
 
 int
 memcmp(std::string_view const &lhs, std::string_view const &rhs) {
@@ -31,7 +32,7 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
   int zret = 0;
   size_t n = rhs.size();
 
-  // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
+  // Seems a bit ugly but size comparisons must be done anyway to get the compare size.
   if (lhs.size() < rhs.size()) {
     zret = -1;
     n    = lhs.size();
@@ -41,7 +42,11 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
     return 0;
   }
 
-  int r = ::strncasecmp(lhs.data(), rhs.data(), n);
+  // @c strncasecmp can't be used because it stops at a nul character.
+  int r = 0;
+  for (size_t i = 0; i < n && 0 == r; ++i) {
+    r = tolower(static_cast<unsigned char>(lhs[i])) - tolower(static_cast<unsigned char>(rhs[i]));
+  }
 
   return r < 0 ? -1 : r > 0 ? 1 : zret;
 }
-- 
2.43.0


From 84b5f957ef136e4faa6077b8b5266a0b6951c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 039/127] fix: TextView::starts_with_nocase and
 ends_with_nocase ignored everything past a nul character

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index bd58947..84934f7 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1685,7 +1685,7 @@ TextView::starts_with_nocase(char c) const noexcept {
 
 inline bool
 TextView::starts_with_nocase(std::string_view const &prefix) const noexcept {
-  return this->size() >= prefix.size() && 0 == ::strncasecmp(this->data(), prefix.data(), prefix.size());
+  return this->size() >= prefix.size() && 0 == strcasecmp(this->prefix(prefix.size()), prefix);
 }
 
 inline bool
@@ -1695,7 +1695,7 @@ TextView::ends_with(std::string_view const &suffix) const noexcept {
 
 inline bool
 TextView::ends_with_nocase(std::string_view const &suffix) const noexcept {
-  return this->size() >= suffix.size() && 0 == ::strncasecmp(this->data_end() - suffix.size(), suffix.data(), suffix.size());
+  return this->size() >= suffix.size() && 0 == strcasecmp(this->suffix(suffix.size()), suffix);
 }
 
 inline bool
-- 
2.43.0


From 6d0e1f3c06bbe74b96a92fc8a53ba353337e4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 040/127] fix: memcmp of spans put a longer span before its
 prefix

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 02c170c..00ee7af 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -963,9 +963,9 @@ memcmp(MemSpan<T> const &lhs, MemSpan<T> const &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.count() < rhs.count()) {
-    zret = 1;
-  } else if (lhs.count() > rhs.count()) {
     zret = -1;
+  } else if (lhs.count() > rhs.count()) {
+    zret = 1;
     n    = rhs.size();
   }
   // else the counts are equal therefore @a n and @a zret are already correct.
-- 
2.43.0


From dfb26efeefe6f0299796ede6443061fa11778a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 041/127] fix: equality and memcmp of spans compared only the
 leading bytes of elements larger than a byte

---
 code/include/swoc/MemSpan.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 00ee7af..64273f7 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -959,14 +959,14 @@ template <typename T>
 int
 memcmp(MemSpan<T> const &lhs, MemSpan<T> const &rhs) {
   int zret = 0;
-  size_t n = lhs.size();
+  size_t n = lhs.data_size();
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.count() < rhs.count()) {
     zret = -1;
   } else if (lhs.count() > rhs.count()) {
     zret = 1;
-    n    = rhs.size();
+    n    = rhs.data_size();
   }
   // else the counts are equal therefore @a n and @a zret are already correct.
 
@@ -1118,7 +1118,7 @@ MemSpan<T>::is_same(self_type const &that) const {
 template <typename T>
 constexpr bool
 MemSpan<T>::operator==(self_type const &that) const {
-  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->size()));
+  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->data_size()));
 }
 
 template <typename T>
-- 
2.43.0


From 0119fdc2ffa73ce11d947f126419c61ca0e45c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:41 +0000
Subject: [PATCH 042/127] fix: TransformView::end read past the view as a C
 string, or did not compile

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 84934f7..8d10a2c 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1864,7 +1864,7 @@ public:
   /// Iterator past last transformed character.
   iterator
   end() const {
-    return self_type{_xf, _limit};
+    return self_type{transform_type(_xf), source_iterator(_limit)};
   }
 
 protected:
@@ -2061,7 +2061,7 @@ TransformView<void, V>::begin() const -> self_type {
 template <typename V>
 auto
 TransformView<void, V>::end() const -> self_type {
-  return self_type{_limit};
+  return self_type{source_iterator(_limit)};
 }
 
 /// @cond INTERNAL_DETAIL
-- 
2.43.0


From 1a74c5a253317028669cad3ae74e823d9d56f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 043/127] fix: text to integer conversion gave the digit T the
 value of K

---
 code/src/TextView.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index fbfb343..3bd5110 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -27,9 +27,9 @@ const int8_t svtoi_convert[256] = {
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 20
   0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  -1, -1, -1, -1, -1, -1, // 30
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 40
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 60
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 80
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 90
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // A0
-- 
2.43.0


From 90d91c3787ecbf651be6e046155155977d6f8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 044/127] fix: svtoi left the parsed text unchanged if there
 was no number

---
 code/src/TextView.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 3bd5110..0cb1a4b 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -47,6 +47,10 @@ svtoi(TextView src, TextView *out, int base) {
   static constexpr uintmax_t ABS_MIN = uintmax_t(std::numeric_limits<intmax_t>::min());
   intmax_t zret = 0;
 
+  if (out) {
+    out->clear();
+  }
+
   if (src.ltrim_if(&isspace)) {
     TextView parsed;
     const char *start = src.data();
-- 
2.43.0


From 2abe40c3620198a2434e2e99fca176f83901c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 045/127] fix: svtoi accepted white space between the sign and
 the number

---
 code/src/TextView.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 0cb1a4b..da19ef2 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -61,6 +61,9 @@ svtoi(TextView src, TextView *out, int base) {
     } else if ('+' == *src) {
       ++src;
     }
+    if (src.empty() || isspace(static_cast<unsigned char>(*src))) {
+      return zret; // only the text before the sign can be white space.
+    }
     auto n = svtou(src, &parsed, base);
     if (!parsed.empty()) {
       if (out) {
-- 
2.43.0


From 112f036b79f3f4f1efa538b770b6974535340200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 046/127] fix: svtoi overflowed converting the minimum value

---
 code/src/TextView.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index da19ef2..14f5551 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -70,7 +70,7 @@ svtoi(TextView src, TextView *out, int base) {
         out->assign(start, parsed.data_end());
       }
       if (neg) {
-        zret = -intmax_t(std::min<uintmax_t>(n, ABS_MIN));
+        zret = intmax_t(0 - std::min<uintmax_t>(n, ABS_MIN)); // unsigned negate, because -ABS_MIN isn't valid.
       } else {
         zret = std::min(n, ABS_MAX);
       }
-- 
2.43.0


From 3206d6ff14411e9f6b66e6b12299ad3c6e09ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 047/127] fix: svtou reported a base prefix without digits as
 parsed

---
 code/src/TextView.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 14f5551..a7b736b 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -89,6 +89,7 @@ svtou(TextView src, TextView *out, int base) {
 
   if (src.ltrim_if(&isspace).size()) {
     auto origin = src.data(); // cache to handle prefix skipping.
+    auto zero   = src.data(); // end of the leading zero, if there is a base prefix.
     // If base is 0, it wasn't specified - check for standard base prefixes
     if (0 == base) {
       base = 10;
@@ -99,11 +100,13 @@ svtou(TextView src, TextView *out, int base) {
           switch (*src) {
           case 'x':
           case 'X':
+            zero = src.data();
             ++src;
             base = 16;
             break;
           case 'b':
           case 'B':
+            zero = src.data();
             ++src;
             base = 2;
             break;
@@ -114,6 +117,7 @@ svtou(TextView src, TextView *out, int base) {
     if (!(1 <= base && base <= 36)) {
       return 0;
     }
+    auto digits = src.data(); // first character after the base prefix.
 
     // For performance in common cases, use the templated conversion.
     switch (base) {
@@ -146,7 +150,8 @@ svtou(TextView src, TextView *out, int base) {
     }
 
     if (out) {
-      out->assign(origin, src.data());
+      // If there are no digits after a base prefix the number is the leading zero.
+      out->assign(origin, zero != origin && src.data() == digits ? zero : src.data());
     }
   }
   return zret;
-- 
2.43.0


From a93471a469bfe3c62efab8a8d78e105ff6812f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 048/127] fix: svtod ignored the sign of a number without
 fraction and exponent

---
 code/src/TextView.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index a7b736b..b633b06 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -203,7 +203,7 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
   parsed->assign(org_text.data(), text.data());
 
   if (text.empty()) {
-    return whole;
+    return sign * whole;
   }
 
   double frac = 0.0;
-- 
2.43.0


From 5d563c9d1879ef1b7c6059cdecc9f41680928193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 049/127] fix: svtod reported text without a number, or an
 exponent without digits, as parsed

---
 code/src/TextView.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index b633b06..c5ebf1e 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -179,16 +179,17 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
     return zret;
   };
 
-  if (text.empty()) {
-    return 0;
-  }
-
   auto org_text = text; // save this to update @a parsed.
   // Check just once and dump to a local copy if needed.
   TextView local_parsed;
   if (!parsed) {
     parsed = &local_parsed;
   }
+  parsed->clear();
+
+  if (text.empty()) {
+    return 0;
+  }
 
   // Handle leading sign.
   int sign = 1;
@@ -198,6 +199,10 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
   } else if (*text == '+') {
     ++text;
   }
+  // There must be at least one digit, before or after the decimal point.
+  if (auto digits = text.starts_with('.') ? text.substr(1) : text; digits.empty() || !isdigit(static_cast<unsigned char>(*digits))) {
+    return 0;
+  }
   // Parse the leading whole part as an integer.
   intmax_t whole = svto_radix<10>(text);
   parsed->assign(org_text.data(), text.data());
@@ -214,6 +219,7 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
       frac  += scale * (*text++ - '0');
       scale /= 10.0;
     }
+    parsed->assign(org_text.data(), text.data());
   }
 
   double exp = 1.0;
@@ -228,11 +234,13 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
         exp_sign = -1;
       }
     }
-    auto exp_part = svto_radix<10>(text);
-    exp           = pow10(exp_part * exp_sign);
+    if (text && isdigit(static_cast<unsigned char>(*text))) { // without digits it's not an exponent.
+      auto exp_part = svto_radix<10>(text);
+      exp           = pow10(exp_part * exp_sign);
+      parsed->assign(org_text.data(), text.data());
+    }
   }
 
-  parsed->assign(org_text.data(), text.data());
   return sign * (whole + frac) * exp;
 }
 
-- 
2.43.0


From a493591b728c3a8e3a751f746bf0ec147193c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 050/127] fix: svtod overflowed for more digits than fit in an
 integer, and lost precision for large exponents

---
 code/src/TextView.cc | 79 ++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index c5ebf1e..891c2d2 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -10,6 +10,7 @@
 */
 
 #include "swoc/TextView.h"
+#include <algorithm>
 #include <cctype>
 #include <sstream>
 
@@ -159,24 +160,27 @@ svtou(TextView src, TextView *out, int base) {
 
 double
 svtod(swoc::TextView text, swoc::TextView *parsed) {
-  // @return 10^e
-  auto pow10 = [](int e) -> double {
-    double zret  = 1.0;
-    double scale = 10.0;
-    if (e < 0) { // flip the scale and make @a e positive.
-      e     = -e;
-      scale = 0.1;
-    }
-
-    // Walk the bits in the exponent @a e and multiply the scale for set bits.
-    while (e) {
-      if (e & 1) {
-        zret *= scale;
+  // @return n * 10^e, for @a n not zero.
+  auto scale_by = [](uintmax_t n, intmax_t e) -> double {
+    static constexpr intmax_t STEP = 256; // Limit for each step, to keep the scale in range.
+    // Extended precision (if available), so that rounding errors here don't matter in the result.
+    long double zret = n;
+    for (e = std::clamp<intmax_t>(e, -4 * STEP, 4 * STEP); e != 0;) {
+      bool neg_p        = e < 0;
+      intmax_t k        = std::min(neg_p ? -e : e, STEP);
+      long double pow   = 1.0;
+      long double scale = 10.0;
+      // Walk the bits in the exponent and multiply the scale for set bits.
+      for (intmax_t bits = k; bits; bits >>= 1, scale *= scale) {
+        if (bits & 1) {
+          pow *= scale;
+        }
       }
-      scale  *= scale;
-      e     >>= 1;
+      // Powers of 10 are exact for longer than powers of 0.1, therefore divide for negative exponents.
+      zret = neg_p ? zret / pow : zret * pow;
+      e    = neg_p ? e + k : e - k;
     }
-    return zret;
+    return double(zret);
   };
 
   auto org_text = text; // save this to update @a parsed.
@@ -203,26 +207,31 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
   if (auto digits = text.starts_with('.') ? text.substr(1) : text; digits.empty() || !isdigit(static_cast<unsigned char>(*digits))) {
     return 0;
   }
-  // Parse the leading whole part as an integer.
-  intmax_t whole = svto_radix<10>(text);
-  parsed->assign(org_text.data(), text.data());
-
-  if (text.empty()) {
-    return sign * whole;
+  // Collect the digits as an integer and adjust the exponent for the location of the decimal point and
+  // for digits dropped because there is no room for them - those are past the precision of a @c double.
+  static constexpr uintmax_t LIMIT = std::numeric_limits<uintmax_t>::max() / 10;
+  uintmax_t n                      = 0;
+  intmax_t exp                     = 0;
+  bool full_p                      = false;
+  for (; text && isdigit(static_cast<unsigned char>(*text)); ++text) {
+    full_p = full_p || n >= LIMIT;
+    if (full_p) {
+      ++exp;
+    } else {
+      n = n * 10 + (*text - '0');
+    }
   }
-
-  double frac = 0.0;
-  if (*text == '.') { // fractional part.
-    ++text;
-    double scale = 0.1;
-    while (text && isdigit(*text)) {
-      frac  += scale * (*text++ - '0');
-      scale /= 10.0;
+  if (text && *text == '.') { // fractional part.
+    for (++text; text && isdigit(static_cast<unsigned char>(*text)); ++text) {
+      full_p = full_p || n >= LIMIT;
+      if (!full_p) {
+        n = n * 10 + (*text - '0');
+        --exp;
+      }
     }
-    parsed->assign(org_text.data(), text.data());
   }
+  parsed->assign(org_text.data(), text.data());
 
-  double exp = 1.0;
   if (text.starts_with_nocase("e")) {
     int exp_sign = 1;
     ++text;
@@ -235,13 +244,13 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
       }
     }
     if (text && isdigit(static_cast<unsigned char>(*text))) { // without digits it's not an exponent.
-      auto exp_part = svto_radix<10>(text);
-      exp           = pow10(exp_part * exp_sign);
+      // The limit is far past the range of @c double.
+      exp += exp_sign * intmax_t(std::min<uintmax_t>(svto_radix<10>(text), std::numeric_limits<intmax_t>::max() / 2));
       parsed->assign(org_text.data(), text.data());
     }
   }
 
-  return sign * (whole + frac) * exp;
+  return n ? sign * scale_by(n, exp) : sign * 0.0;
 }
 
 // Do the template instantiations.
-- 
2.43.0


From cf450880d52e25333645149ffe46a64b7accceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 051/127] fix: memcpy of spans copied only the leading bytes of
 elements larger than a byte

---
 code/include/swoc/MemSpan.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 64273f7..161b7ee 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -983,19 +983,19 @@ using std::memcmp;
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, MemSpan<T> const &src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.size(), src.size())));
+  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.data_size(), src.data_size())));
 }
 
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, T *src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src, dst.size()));
+  return static_cast<T *>(std::memcpy(dst.data(), src, dst.data_size()));
 }
 
 template <typename T>
 T *
 memcpy(T *dst, MemSpan<T> &src) {
-  return static_cast<T *>(std::memcpy(dst, src.data(), src.size()));
+  return static_cast<T *>(std::memcpy(dst, src.data(), src.data_size()));
 }
 
 inline char *
-- 
2.43.0


From 8080c6646db7c76dc3597d4b167c164d72a684d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 052/127] fix: memcpy of a view to a span wrote past the end of
 a smaller span

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 161b7ee..a57bf80 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1000,12 +1000,12 @@ memcpy(T *dst, MemSpan<T> &src) {
 
 inline char *
 memcpy(MemSpan<char> &span, std::string_view view) {
-  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(view.size(), view.size())));
+  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(span.size(), view.size())));
 }
 
 inline void *
 memcpy(MemSpan<void> &span, std::string_view view) {
-  return std::memcpy(span.data(), view.data(), std::min(view.size(), view.size()));
+  return std::memcpy(span.data(), view.data(), std::min(span.size(), view.size()));
 }
 
 using std::memcpy;
-- 
2.43.0


From e0522949e3020f53fcd288c22cc6b768ea22b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 053/127] fix: rebinding a span to void multiplied its size by
 the element size twice

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index a57bf80..4388110 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -935,7 +935,7 @@ template <typename T> struct is_span_compatible<T, void> {
 template <typename T>
 size_t
 is_span_compatible<T, void>::count(size_t size) {
-  return sizeof(T) * size;
+  return size;
 }
 
 template <typename T> struct is_span_compatible<T, void const> {
@@ -946,7 +946,7 @@ template <typename T> struct is_span_compatible<T, void const> {
 template <typename T>
 size_t
 is_span_compatible<T, void const>::count(size_t size) {
-  return sizeof(T) * size;
+  return size;
 }
 /// @endcond
 
-- 
2.43.0


From 708d673320be1534388fd6015328910dd4dc59d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 054/127] fix: MemSpan<void>::align returned misaligned spans

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 4388110..02280d3 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1615,7 +1615,7 @@ MemSpan<void>::align() const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1);
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = _size - padding;
@@ -1632,7 +1632,7 @@ MemSpan<void>::align(size_t alignment) const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment, size_t obj_size) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1);
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = ((_size - padding) / obj_size) * obj_size;
-- 
2.43.0


From b3ee8fe44afd0d399d3487a244f2c07f6b0a3760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 055/127] fix: assigning a span of constants to MemSpan<void
 const> did not compile

---
 code/include/swoc/MemSpan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 02280d3..0f225f9 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1399,7 +1399,7 @@ MemSpan<void const>::empty() const {
 template <typename U>
 auto
 MemSpan<void const>::operator=(MemSpan<U> const &that) -> self_type & {
-  _ptr  = that._ptr;
+  _ptr  = const_cast<std::remove_const_t<U> *>(that._ptr);
   _size = sizeof(U) * that.size();
   return *this;
 }
-- 
2.43.0


From e32ed3781b34d058e8ed31e8c650d48e1bbfbdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 056/127] fix: FixedBufferWriter::copy wrote past the end of
 the buffer and copied too much

---
 code/include/swoc/BufferWriter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/BufferWriter.h b/code/include/swoc/BufferWriter.h
index 154da37..e9256d6 100644
--- a/code/include/swoc/BufferWriter.h
+++ b/code/include/swoc/BufferWriter.h
@@ -626,9 +626,9 @@ FixedBufferWriter::clear() -> self_type & {
 inline auto
 FixedBufferWriter::copy(size_t dst, size_t src, size_t n) -> self_type & {
   auto limit = std::min<size_t>(_capacity, _attempted); // max offset of region possible.
-  MemSpan<char> src_span{_buffer + src, std::min(limit, src + n)};
-  MemSpan<char> dst_span{_buffer + dst, std::min(limit, dst + n)};
-  std::memmove(dst_span.data(), src_span.data(), std::min(dst_span.size(), src_span.size()));
+  if (src < limit && dst < limit) {
+    std::memmove(_buffer + dst, _buffer + src, std::min(n, limit - std::max(src, dst)));
+  }
   return *this;
 }
 
-- 
2.43.0


From 0a942507d3a6ad1838f040cd3db40c9afbffa167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 057/127] fix: format specifiers with non-ASCII characters were
 looked up outside of the property table

---
 code/include/swoc/bwf_base.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index d5c426d..35ab202 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -474,37 +474,37 @@ extern ExternalNames Global_Names;
 
 inline Spec::Align
 Spec::align_of(char c) {
-  return static_cast<Align>(_prop._data[static_cast<unsigned>(c)] & Property::ALIGN_MASK);
+  return static_cast<Align>(_prop._data[static_cast<unsigned char>(c)] & Property::ALIGN_MASK);
 }
 
 inline bool
 Spec::is_sign(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::SIGN_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::SIGN_CHAR;
 }
 
 inline bool
 Spec::is_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::TYPE_CHAR;
 }
 
 inline bool
 Spec::is_upper_case_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
 Spec::is_numeric_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_numeric_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_upper_case_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
-- 
2.43.0


From 9d96f04f21ec9060a640b88464184a6c93de06a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 058/127] fix: parsing a format specifier ending in the zero
 fill mark read past its end

---
 code/src/bw_format.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 60ceacc..2aa9d66 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -127,7 +127,9 @@ Spec::parse(TextView fmt) {
           _align = Align::SIGN;
         }
         _fill = '0';
-        ++sz;
+        if (!(++sz).size()) {
+          return true;
+        }
       }
       num = sz;
       n   = svto_radix<10>(num);
-- 
2.43.0


From 1ca1ccce557a47bf85a78d999ee534e858b90cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 059/127] fix: too large argument index in a format specifier
 wrapped to another argument

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 2aa9d66..96fb84c 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -75,7 +75,7 @@ Spec::parse(TextView fmt) {
   num    = _name;
   auto n = svto_radix<10>(num);
   if (num.empty()) {
-    _idx = static_cast<decltype(_idx)>(n);
+    _idx = static_cast<decltype(_idx)>(std::min<uintmax_t>(n, std::numeric_limits<decltype(_idx)>::max()));
   }
 
   if (fmt.size()) {
-- 
2.43.0


From 79d328d42558a7fb42bf6910181a2bc151c70726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 060/127] fix: formatting the minimum value of signed types
 printed another value

---
 code/include/swoc/bwf_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 35ab202..aa09269 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -1104,7 +1104,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, I &&i) ->
   bool neg_p  = false;
   uintmax_t n = static_cast<uintmax_t>(i);
   if (i < 0) {
-    n     = static_cast<uintmax_t>(-i);
+    n     = 0 - n; // negating @a i overflows for the minimum value.
     neg_p = true;
   }
   return bwf::Format_Integer(w, spec, n, neg_p);
-- 
2.43.0


From 8980fcf8414b3cac7a218c1dbc3ad9456ffaa2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 061/127] fix: empty formatted output was not filled to the
 minimum width

---
 code/include/swoc/bwf_base.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index aa09269..a4ec973 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -903,11 +903,9 @@ BufferWriter::print_nfv(Binding &&names, Extractor &&ex, bwf::ArgPack const &arg
         } else if (spec._name.size()) {
           names(lw, spec);
         }
-        if (lw.extent()) {
-          bwf::Adjust_Alignment(lw, spec);
-          if (!this->commit(lw.extent())) {
-            continue;
-          }
+        bwf::Adjust_Alignment(lw, spec);
+        if (!this->commit(lw.extent())) {
+          continue;
         }
         break;
       }
-- 
2.43.0


From 5dfca0985d86a34718a7ca432fcb5737386e9969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 062/127] fix: output filled to a minimum width larger than the
 maximum width contained unwritten bytes

---
 code/src/bw_format.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 96fb84c..c5e39ff 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -299,12 +299,12 @@ Adjust_Alignment(BufferWriter &aux, Spec const &spec) {
     for (int i = right_delta; i > 0; --i) {
       aux.write(spec._fill);
     }
+    extent = aux.extent();
+  }
 
-  } else {
-    size_t max = spec._max;
-    if (max < extent) {
-      aux.discard(extent - max);
-    }
+  size_t max = spec._max;
+  if (max < extent) {
+    aux.discard(extent - max);
   }
 }
 
-- 
2.43.0


From a568e4eb91c84ea1f0c74ebbca7c1201f11bbb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 063/127] fix: fill of a right aligned or centered hex dump was
 put between radix prefix and digits

---
 code/src/bw_format.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index c5e39ff..340f3a4 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -701,14 +701,28 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::HexDump const &hex) {
     digits   = bwf::LOWER_DIGITS;
   }
 
-  int width = int(spec._min) - hex._view.size() * 2; // amount left to fill.
+  int width   = int(spec._min) - hex._view.size() * 2; // amount left to fill.
+  auto prefix = [&]() {
+    if (spec._radix_lead_p) {
+      w.write('0');
+      w.write(fmt_type);
+    }
+  };
   if (spec._radix_lead_p) {
-    w.write('0');
-    w.write(fmt_type);
     width -= 2;
   }
+  if (spec._align == bwf::Spec::Align::SIGN) { // fill goes between the prefix and the digits.
+    prefix();
+  }
   bwf::Write_Aligned(
-    w, [&w, &hex, digits]() { bwf::Format_As_Hex(w, hex._view, digits); }, spec._align, width, spec._fill, 0);
+    w,
+    [&]() {
+      if (spec._align != bwf::Spec::Align::SIGN) {
+        prefix();
+      }
+      bwf::Format_As_Hex(w, hex._view, digits);
+    },
+    spec._align, width, spec._fill, 0);
   return w;
 }
 
-- 
2.43.0


From 9840a4e8356792a2b0c964ebc98c24b487a292fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 064/127] fix: floating point formatting dropped the leading
 zeros of the fraction

---
 code/src/bw_format.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 340f3a4..0199612 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -553,7 +553,8 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
 
   // Shift the floating point based on the precision. Used to convert
   //  trailing fraction into an integer value.
-  uint64_t shift = 0;
+  uint64_t shift      = 0;
+  const size_t places = precision;
   if (precision < POWERS_OF_TEN.size()) {
     shift = POWERS_OF_TEN[precision];
   } else { // not precomputed.
@@ -574,7 +575,7 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   }
   width -= static_cast<int>(l);
   --width; // '.'
-  width -= static_cast<int>(r);
+  width -= static_cast<int>(places);
 
   std::string_view whole_digits{whole + sizeof(whole) - l, l};
   std::string_view frac_digits{fraction + sizeof(fraction) - r, r};
@@ -584,6 +585,9 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     [&]() {
       w.write(whole_digits);
       w.write(dec);
+      for (size_t i = r; i < places; ++i) { // leading zeros of the fraction.
+        w.write('0');
+      }
       w.write(frac_digits);
     },
     spec._align, width, spec._fill, neg);
-- 
2.43.0


From 97efc78ef12b92bcd637e72443e65f83568886b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 065/127] fix: floating point formatting lost the carry of
 rounding the fraction up to one

---
 code/src/bw_format.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 0199612..a5190e0 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -565,6 +565,10 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   }
 
   auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
+  if (frac_part >= shift) { // rounded up to the next whole number.
+    frac_part -= shift;
+    ++whole_part;
+  }
 
   l = bwf::To_Radix<10>(whole_part, whole, sizeof(whole), bwf::LOWER_DIGITS);
   r = bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
-- 
2.43.0


From 9a2b6716ebcceb1f2715869a2ef976a6e3e4a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 066/127] fix: floating point formatting with a precision of
 more than 15 overflowed

---
 code/src/bw_format.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index a5190e0..755beff 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -555,19 +555,24 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   //  trailing fraction into an integer value.
   uint64_t shift      = 0;
   const size_t places = precision;
+  // If there are more places than digits in a @c double then the integer would overflow.
+  const bool long_p = precision > std::numeric_limits<double>::digits10;
   if (precision < POWERS_OF_TEN.size()) {
     shift = POWERS_OF_TEN[precision];
-  } else { // not precomputed.
+  } else if (!long_p) { // not precomputed.
     shift = POWERS_OF_TEN.back();
     for (precision -= (POWERS_OF_TEN.size() - 1); precision > 0; --precision) {
       shift *= 10;
     }
   }
 
-  auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
-  if (frac_part >= shift) { // rounded up to the next whole number.
-    frac_part -= shift;
-    ++whole_part;
+  uint64_t frac_part = 0;
+  if (!long_p) {
+    frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
+    if (frac_part >= shift) { // rounded up to the next whole number.
+      frac_part -= shift;
+      ++whole_part;
+    }
   }
 
   l = bwf::To_Radix<10>(whole_part, whole, sizeof(whole), bwf::LOWER_DIGITS);
@@ -589,6 +594,16 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     [&]() {
       w.write(whole_digits);
       w.write(dec);
+      if (long_p) {
+        std::array<char, 2 + std::numeric_limits<double>::digits - std::numeric_limits<double>::min_exponent + 1> text;
+        size_t n = std::min(places, text.size() - 3);
+        snprintf(text.data(), text.size(), "%.*f", static_cast<int>(n), frac);
+        w.write(text.data() + 2, n); // skip the whole part and decimal point.
+        for (; n < places; ++n) {    // no non-zero digits past this.
+          w.write('0');
+        }
+        return;
+      }
       for (size_t i = r; i < places; ++i) { // leading zeros of the fraction.
         w.write('0');
       }
-- 
2.43.0


From b50a68349d264bc2e98abdc3257f45d215f901e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 067/127] fix: floating point formatting of values of 2^64 and
 more printed another value

---
 code/src/bw_format.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 755beff..1a3029f 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -528,6 +528,27 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     return w;
   }
 
+  char neg  = 0;
+  int width = static_cast<int>(spec._min); // amount left to fill.
+
+  if (f >= 18446744073709551616.0) { // 2^64, too large for an integer type and therefore integral.
+    char text[std::numeric_limits<double>::max_exponent10 + 2];
+    size_t n = snprintf(text, sizeof(text), "%.0f", f);
+
+    if (negative_p) {
+      neg = '-';
+    } else if (spec._sign != '-') {
+      neg = spec._sign;
+    }
+    if (neg) {
+      --width;
+    }
+    width -= static_cast<int>(n);
+    Write_Aligned(
+      w, [&]() { w.write(text, n); }, spec._align, width, spec._fill, neg);
+    return w;
+  }
+
   auto whole_part = static_cast<uint64_t>(f);
   if (whole_part == f || spec._prec == 0) { // integral
     return Format_Integer(w, spec, whole_part, negative_p);
@@ -539,8 +560,6 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   size_t r                  = 0;
   char whole[std::numeric_limits<double>::digits10 + 1];
   char fraction[std::numeric_limits<double>::digits10 + 1];
-  char neg               = 0;
-  int width              = static_cast<int>(spec._min);                          // amount left to fill.
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
 
   frac = f - whole_part; // split the number
-- 
2.43.0


From 5529ab2420d0cbfe13fcdd173547874908805134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 068/127] fix: integral floating point values were not printed
 in base 10 for numeric format types

---
 code/src/bw_format.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 1a3029f..0797871 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -551,7 +551,9 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
 
   auto whole_part = static_cast<uint64_t>(f);
   if (whole_part == f || spec._prec == 0) { // integral
-    return Format_Integer(w, spec, whole_part, negative_p);
+    Spec decimal_spec{spec};
+    decimal_spec._type = 'd'; // The value is always written in base 10.
+    return Format_Integer(w, decimal_spec, whole_part, negative_p);
   }
 
   static constexpr char dec = '.';
-- 
2.43.0


From d2ee447dbca9f000249aeed54d0fad211e4015e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 069/127] fix: floating point formatting wrote a sign character
 for the sign specifier to never print one

---
 code/src/bw_format.cc | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 0797871..d3d0d0f 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -504,6 +504,15 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   static const std::string_view subnormal_bwf{"subnormal"};
   static const std::string_view unknown_bwf{"unknown float"};
 
+  char neg = 0;
+  if (spec._sign != Spec::SIGN_NEVER) {
+    if (negative_p) {
+      neg = '-';
+    } else if (spec._sign == Spec::SIGN_ALWAYS) {
+      neg = spec._sign;
+    }
+  }
+
   // Handle floating values that are not normal
   if (!std::isnormal(f)) {
     std::string_view unnormal;
@@ -528,18 +537,12 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     return w;
   }
 
-  char neg  = 0;
   int width = static_cast<int>(spec._min); // amount left to fill.
 
   if (f >= 18446744073709551616.0) { // 2^64, too large for an integer type and therefore integral.
     char text[std::numeric_limits<double>::max_exponent10 + 2];
     size_t n = snprintf(text, sizeof(text), "%.0f", f);
 
-    if (negative_p) {
-      neg = '-';
-    } else if (spec._sign != '-') {
-      neg = spec._sign;
-    }
     if (neg) {
       --width;
     }
@@ -566,12 +569,6 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
 
   frac = f - whole_part; // split the number
 
-  if (negative_p) {
-    neg = '-';
-  } else if (spec._sign != '-') {
-    neg = spec._sign;
-  }
-
   // Shift the floating point based on the precision. Used to convert
   //  trailing fraction into an integer value.
   uint64_t shift      = 0;
-- 
2.43.0


From fe092de8e79f14a8edc43be2b1110c2727f9faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 070/127] fix: formatting negative infinity lost the sign

---
 code/src/bw_format.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index d3d0d0f..7e91183 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -519,6 +519,9 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     switch (std::fpclassify(f)) {
     case FP_INFINITE:
       unnormal = infinity_bwf;
+      if (neg) {
+        w.write(neg);
+      }
       break;
     case FP_NAN:
       unnormal = nan_bwf;
-- 
2.43.0


From fb07b7d1ac8883ae025842d1421bb6dddfee1e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 071/127] fix: decrement of Lexicon iterators did not compile

---
 code/include/swoc/Lexicon.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index c574bc7..30d0f31 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -770,15 +770,15 @@ Lexicon<E>::value_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_value_link->_prev;
+  super_type::_item = super_type::_item->_value_link._prev;
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
@@ -800,15 +800,15 @@ Lexicon<E>::name_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_name_link->_prev;
+  super_type::_item = super_type::_item->_name_link._prev;
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
-- 
2.43.0


From 4cb578f028ee90aa1662b301d5c86aa8bd5ff841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 072/127] fix: rounding negative counts to another scale was in
 the wrong direction

---
 code/include/swoc/Scalar.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 339daf3..99b3ba6 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -39,34 +39,48 @@ namespace detail {
 // only do 1 division to get both the quotient and remainder for (n/N) and (n%N). In cases where
 // N,S are powers of 2 I have verified recent GNU compilers will optimize to bit operations.
 
+// Integer division, rounding up. Truncation already rounds up for a negative quotient.
+template <typename C>
+constexpr auto
+div_round_up(C n, intmax_t d) {
+  return n / d + (n % d > 0);
+}
+
+// Integer division, rounding down. Truncation rounds up for a negative quotient.
+template <typename C>
+constexpr auto
+div_round_down(C n, intmax_t d) {
+  return n / d - (n % d < 0);
+}
+
 // Convert a count @a c that is scale @a S to scale @c N
 template <intmax_t N, intmax_t S, typename C>
-C
+constexpr C
 scale_conversion_round_up(C c) {
   using R = std::ratio<N, S>;
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num + (0 != c % R::num); // N is a multiple of S.
+    return div_round_up(c, R::num); // N is a multiple of S.
   } else if constexpr (R::num == 1) {
     return c * R::den; // S is a multiple of N.
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (0 != (c % R::num));
+  return (c / R::num) * R::den + div_round_up((c % R::num) * R::den, R::num);
 }
 
 // Convert a count @a c that is scale @a S to scale @c N
 template <intmax_t N, intmax_t S, typename C>
-C
+constexpr C
 scale_conversion_round_down(C c) {
   using R = std::ratio<N, S>;
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num; // N = k S
+    return div_round_down(c, R::num); // N = k S
   } else if constexpr (R::num == 1) {
     return c * R::den; // S = k N
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num;
+  return (c / R::num) * R::den + div_round_down((c % R::num) * R::den, R::num);
 }
 
 /* Helper classes for @c Scalar
@@ -104,7 +118,7 @@ template <typename C> struct scalar_unit_round_up_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N + (0 != (_n % N)));
+    return static_cast<I>(div_round_up(_n, N));
   }
 };
 
@@ -115,7 +129,7 @@ template <typename C> struct scalar_unit_round_down_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N);
+    return static_cast<I>(div_round_down(_n, N));
   }
 };
 
-- 
2.43.0


From 391c3bfbf10687fc2fe4b8ded64e672b36cf8d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 073/127] fix: rounding to a Scalar with a larger counter type
 truncated the result to the counter type of the source

---
 code/include/swoc/Scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 99b3ba6..7c23ac8 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -140,7 +140,7 @@ template <intmax_t N, typename C, typename T> struct scalar_round_up_t {
   template <intmax_t S, typename I>
   constexpr
   operator Scalar<S, I, T>() const {
-    return Scalar<S, I, T>(scale_conversion_round_up<S, N>(_n));
+    return Scalar<S, I, T>(scale_conversion_round_up<S, N>(static_cast<std::common_type_t<C, I>>(_n)));
   }
 };
 
@@ -151,7 +151,7 @@ template <intmax_t N, typename C, typename T> struct scalar_round_down_t {
   template <intmax_t S, typename I>
   constexpr
   operator Scalar<S, I, T>() const {
-    return Scalar<S, I, T>(scale_conversion_round_down<S, N>(_n));
+    return Scalar<S, I, T>(scale_conversion_round_down<S, N>(static_cast<std::common_type_t<C, I>>(_n)));
   }
 };
 
-- 
2.43.0


From 22d6da27de903d23d31f7e55e0fead1bfacb5c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 074/127] fix: inequality of Scalars compared values truncated
 to the counter type

---
 code/include/swoc/Scalar.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 7c23ac8..fc351f9 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -639,6 +639,12 @@ operator<=(Scalar<N, C1, T> const &lhs, Scalar<S, I, T> const &rhs) {
 }
 
 // Derived compares.
+template <intmax_t N, typename C, intmax_t S, typename I, typename T>
+bool
+operator!=(Scalar<N, C, T> const &lhs, Scalar<S, I, T> const &rhs) {
+  return !(lhs == rhs);
+}
+
 template <intmax_t N, typename C, intmax_t S, typename I, typename T>
 bool
 operator>(Scalar<N, C, T> const &lhs, Scalar<S, I, T> const &rhs) {
-- 
2.43.0


From f61303f8a481023f0f1460cd649ce1dcd057aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 075/127] fix: Scalar plus and minus did not compile

---
 code/include/swoc/Scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index fc351f9..e2703bf 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -1008,13 +1008,13 @@ Scalar<N, C, T>::operator()(Counter n) const -> self_type {
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::plus(Counter n) const -> self_type {
-  return {_n + n};
+  return self_type(_n + n);
 }
 
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::minus(Counter n) const -> self_type {
-  return {_n - n};
+  return self_type(_n - n);
 }
 
 /** Explicitly round @c value up to a multiple of @a N.
-- 
2.43.0


From 42d73dd1ec0f050aa12050a3ff1210f559f93e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 076/127] fix: adding a rounded Scalar to a Scalar of the same
 scale did not compile

---
 code/include/swoc/Scalar.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index e2703bf..bcb224f 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -752,25 +752,25 @@ operator+(Scalar<N, C, T> const &lhs, detail::scalar_unit_round_down_t<I> rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 /// @endcond
 
@@ -875,7 +875,7 @@ operator-(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 
 template <intmax_t N, typename C, typename T>
@@ -887,7 +887,7 @@ operator-(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs)
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 /// @endcond
 
-- 
2.43.0


From a1b2c2ead9bff95a846c498b373f935c46851d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 077/127] fix: multiplying a tagged Scalar that counts with int
 was ambiguous

---
 code/include/swoc/Scalar.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index bcb224f..b81a432 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -966,16 +966,16 @@ operator*(int n, Scalar<N, C, T> const &rhs) {
   return Scalar<N, C, T>(rhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(Scalar<N, int> const &lhs, int n) {
-  return Scalar<N, int>(lhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(Scalar<N, int, T> const &lhs, int n) {
+  return Scalar<N, int, T>(lhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(int n, Scalar<N, int> const &rhs) {
-  return Scalar<N, int>(rhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(int n, Scalar<N, int, T> const &rhs) {
+  return Scalar<N, int, T>(rhs) *= n;
 }
 
 template <intmax_t N, typename C, typename T>
-- 
2.43.0


From f97e0d66348344eb81363a7c9df745ad682641e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 078/127] fix: the code of an Errata without annotations was
 not available

---
 code/include/swoc/Errata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Errata.h b/code/include/swoc/Errata.h
index 6ee0be5..09131dc 100644
--- a/code/include/swoc/Errata.h
+++ b/code/include/swoc/Errata.h
@@ -1124,7 +1124,7 @@ Errata::empty() const {
 
 inline auto
 Errata::code() const -> code_type const & {
-  return this->empty() ? DEFAULT_CODE : _data->_code;
+  return _data ? _data->_code : DEFAULT_CODE;
 }
 
 inline auto
-- 
2.43.0


From ce4ac6383406bd9aa84e84ba72e17878bff22c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 079/127] fix: appending an Errata to itself did not end

---
 code/src/Errata.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/src/Errata.cc b/code/src/Errata.cc
index 4ffd875..f8088af 100644
--- a/code/src/Errata.cc
+++ b/code/src/Errata.cc
@@ -103,8 +103,10 @@ Errata::note(const self_type &that) {
     if (that.has_severity()) {
       this->update(that.severity());
     }
-    for (auto const &annotation : that) {
-      d->_notes.append(d->_arena.make<Annotation>(d->localize(annotation._text), annotation._severity, annotation._level + 1));
+    // @a that may be this instance, do not visit the annotations added here.
+    auto n = that.length();
+    for (auto spot = that.begin(); n > 0; ++spot, --n) {
+      d->_notes.append(d->_arena.make<Annotation>(d->localize(spot->_text), spot->_severity, spot->_level + 1));
     }
   }
   return *this;
-- 
2.43.0


From 2d5b041ecc8b805d66637ecd4345f8b2306e787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:07 +0000
Subject: [PATCH 080/127] fix: an IPv4 address text could have empty octets

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 6403922..163c007 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -313,7 +313,7 @@ IP4Addr::load(std::string_view const &text) {
     TextView parsed;
     auto token = src.take_prefix_at('.');
     auto v     = svtou(token, &parsed);
-    if (parsed.size() != token.size()) {
+    if (token.empty() || parsed.size() != token.size()) {
       break;
     }
     if (src.empty()) {
-- 
2.43.0


From d96bf12e02afebc7789301b6fd96f0c3eb9244a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:07 +0000
Subject: [PATCH 081/127] fix: a failed load did not invalidate the IPv6
 address

---
 code/src/swoc_ip.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 163c007..490db1f 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -421,6 +421,8 @@ IP6Addr::load(std::string_view const &str) {
   int empty_idx = -1;
   auto quad     = _addr._quad.data();
 
+  this->clear(); // result if the parsing fails.
+
   src.trim_if(&isspace);
   if (src && '[' == *src) {
     ++src;
@@ -460,6 +462,7 @@ IP6Addr::load(std::string_view const &str) {
     TextView token{src.take_prefix_at(':')};
     if (token.empty()) {
       if (empty_idx >= 0) { // two instances of "::", fail.
+        this->clear();
         return false;
       }
       empty_idx = n;
@@ -484,6 +487,7 @@ IP6Addr::load(std::string_view const &str) {
       }
       n = N_QUADS; // Mark success.
     } else {
+      this->clear();
       return false; // too many quads - full set plus empty.
     }
   }
-- 
2.43.0


From 3ede5d55b55499e4fc3e156595d2dce07f215297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:07 +0000
Subject: [PATCH 082/127] fix: IPv6 quads that are too large, signed or not
 numbers were accepted

---
 code/src/swoc_ip.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 490db1f..7ba56f2 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -468,11 +468,12 @@ IP6Addr::load(std::string_view const &str) {
       empty_idx = n;
     } else {
       TextView r;
-      auto x = svtoi(token, &r, 16);
-      if (r.size() == token.size()) {
+      auto x = svtou(token, &r, 16);
+      if (r.size() == token.size() && x <= QUAD_MASK) {
         quad[QUAD_IDX[n++]] = x;
-      } else {
-        break;
+      } else { // not a quad, fail.
+        this->clear();
+        return false;
       }
     }
   }
-- 
2.43.0


From 904ed2a1a37fc361ff196815a732bddf884538b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:07 +0000
Subject: [PATCH 083/127] fix: an IPv6 address text could end with a colon

---
 code/src/swoc_ip.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 7ba56f2..399568e 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -456,6 +456,11 @@ IP6Addr::load(std::string_view const &str) {
     }
   }
 
+  // A trailing ':' must be part of "::".
+  if (src.size() >= 2 && src.back() == ':' && src[src.size() - 2] != ':') {
+    return false;
+  }
+
   // Sadly the empty quads can't be done in line because it's not possible to know the correct index
   // of the next present quad until the entire address has been parsed.
   while (n < static_cast<int>(N_QUADS) && !src.empty()) {
-- 
2.43.0


From 8585aca5b31b3a2b51afd73e448bd86b52bd1633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 084/127] fix: an IPv6 IPAddr was less than an IPv4 one as well
 as greater

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 399568e..f7684c1 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -598,7 +598,7 @@ IPAddr::operator<(self_type const &that) const {
   } else if (AF_INET6 == _family) {
     switch (that._family) {
     case AF_INET:
-      return true;
+      return false;
     case AF_INET6:
       return _addr._ip6 < that._addr._ip6;
     default:
-- 
2.43.0


From 29b56030c1cc351389bf4b36825a01c0a06e7215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 085/127] fix: shifting an IPv6 address by zero bits was
 undefined

---
 code/src/swoc_ip.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index f7684c1..25fdcc0 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -373,7 +373,9 @@ IP6Addr::cmp(const self_type &that) const {
 IP6Addr &
 IP6Addr::operator<<=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
-  if (n < WORD_WIDTH) {
+  if (n == 0) { // shifting the other word by its width is not defined.
+    return *this;
+  } else if (n < WORD_WIDTH) {
     _addr._store[MSW] <<= n;
     _addr._store[MSW]  |= (_addr._store[LSW] >> (WORD_WIDTH - n)) & ~(MASK << n);
     _addr._store[LSW] <<= n;
@@ -388,7 +390,9 @@ IP6Addr::operator<<=(unsigned int n) {
 IP6Addr &
 IP6Addr::operator>>=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
-  if (n < WORD_WIDTH) {
+  if (n == 0) { // shifting the other word by its width is not defined.
+    return *this;
+  } else if (n < WORD_WIDTH) {
     _addr._store[LSW] >>= n;
     _addr._store[LSW]  |= (_addr._store[MSW] & ~(MASK << n)) << (WORD_WIDTH - n);
     _addr._store[MSW] >>= n;
-- 
2.43.0


From 48c2334f6df005940c81506603a4c2e821e765fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 086/127] fix: a failed load of an IPRange did not leave it
 invalid

---
 code/src/swoc_ip.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 25fdcc0..05dfc51 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1133,6 +1133,7 @@ IPRange::load(std::string_view const &text) {
     return true;
   }
 
+  this->clear();
   return false;
 }
 
-- 
2.43.0


From e1a7c8383867af0e69acb2cee5b1cf3372cbc99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 087/127] fix: IPRange::contains treated IPv6 ranges as IPv4
 ranges

---
 code/include/swoc/IPRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 547afdb..6cc756f 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2007,7 +2007,7 @@ inline bool IPRange::contains(IPAddr const & addr) const {
   if (addr.family() != _family) {
     return false;
   }
-  if (this->ip4()) {
+  if (this->is_ip4()) {
     return _range._ip4.contains(addr.ip4());
   } else if (this->is_ip6()) {
     return _range._ip6.contains(addr.ip6());
-- 
2.43.0


From 6a481f7b8a3a10033dc0c632346cc576705a7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 088/127] fix: assigning an invalid IPRangeView left the
 IPRange unchanged

---
 code/include/swoc/IPRange.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 6cc756f..b3a9835 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -1931,6 +1931,8 @@ IPRange::operator=(const IPRangeView &rv) -> self_type & {
     *this = *rv._raw._4;
   } else if (AF_INET6 == rv._family) {
     *this = *rv._raw._6;
+  } else {
+    this->clear();
   }
   return *this;
 }
-- 
2.43.0


From 9293b8d677ccb8ee8e020d910b7366cd013578c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:02 +0000
Subject: [PATCH 089/127] fix: an IPMask could be loaded from empty text or a
 too large number

---
 code/src/swoc_ip.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 05dfc51..cfc77c6 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -676,11 +676,12 @@ bool operator == (IPAddr const& lhs, sockaddr const * sa) {
 bool
 IPMask::load(string_view const &text) {
   TextView parsed;
-  _cidr = swoc::svtou(text, &parsed);
-  if (parsed.size() != text.size()) {
+  auto n = swoc::svtou(text, &parsed);
+  if (text.empty() || parsed.size() != text.size() || n > IP6Addr::WIDTH) {
     _cidr = 0;
     return false;
   }
+  _cidr = static_cast<raw_type>(n);
   return true;
 }
 
-- 
2.43.0


From dea0e4b38eb7136f81249677d53e8b648022f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:03 +0000
Subject: [PATCH 090/127] fix: an IPv4 range text could have a mask of more
 than 32 bits

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index cfc77c6..f8cc60c 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -976,7 +976,7 @@ IP4Range::load(string_view text) {
         if (addr.load(text.substr(0, idx))) { // load the address
           IPMask mask;
           text.remove_prefix(idx + 1); // drop address and separator.
-          if (mask.load(text)) {
+          if (mask.load(text) && mask.width() <= IP4Addr::WIDTH) {
             this->assign(addr, mask);
             return true;
           }
-- 
2.43.0


From c61be2f65e12ecdf04cb5cb8ed927caf367c5de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:50 +0000
Subject: [PATCH 091/127] fix: post increment of IPv6 and generic network
 sources was not defined

---
 code/include/swoc/IPRange.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index b3a9835..32e6af4 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2338,6 +2338,13 @@ IP6Range::NetSource::operator*() const {
   return IP6Net{_range.min(), _mask};
 }
 
+inline auto
+IP6Range::NetSource::operator++(int) -> self_type {
+  auto zret{*this};
+  ++*this;
+  return zret;
+}
+
 inline auto
 IP6Range::NetSource::operator->() -> self_type * {
   return this;
@@ -2433,6 +2440,13 @@ IPRange::NetSource::operator++() -> self_type & {
   return *this;
 }
 
+inline auto
+IPRange::NetSource::operator++(int) -> self_type {
+  auto zret{*this};
+  ++*this;
+  return zret;
+}
+
 inline auto
 IPRange::NetSource::operator->() -> self_type * {
   return this;
-- 
2.43.0


From 423868923702fec83c05dea3da7a7e6596e92db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:50 +0000
Subject: [PATCH 092/127] fix: a cleared network still had its address

---
 code/include/swoc/IPRange.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 32e6af4..291bc2c 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -767,6 +767,7 @@ public:
   /// Reset network to invalid state.
   self_type &
   clear() {
+    _addr = IP4Addr{};
     _mask.clear();
     return *this;
   }
@@ -842,6 +843,7 @@ public:
   /// Reset network to invalid state.
   self_type &
   clear() {
+    _addr = IP6Addr{};
     _mask.clear();
     return *this;
   }
@@ -2262,6 +2264,7 @@ IPNet::ip6() const {
 
 inline auto
 IPNet::clear() -> self_type & {
+  _addr.invalidate();
   _mask.clear();
   return *this;
 }
-- 
2.43.0


From 0a4dc8d229e5cf8ab55bbdc221a908068e1d40ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:50 +0000
Subject: [PATCH 093/127] fix: the range of an invalid network was not empty

---
 code/include/swoc/IPRange.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 291bc2c..08e029a 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2115,6 +2115,9 @@ IP4Net::max() const {
 
 inline IP4Range
 IP4Net::as_range() const {
+  if (this->empty()) {
+    return {};
+  }
   return {this->min(), this->max()};
 }
 
@@ -2159,6 +2162,9 @@ IP6Net::max() const {
 
 inline IP6Range
 IP6Net::as_range() const {
+  if (this->empty()) {
+    return {};
+  }
   return {this->min(), this->max()};
 }
 
@@ -2212,6 +2218,9 @@ IPNet::mask() const {
 
 inline IPRange
 IPNet::as_range() const {
+  if (this->empty()) {
+    return {};
+  }
   return {this->min(), this->max()};
 }
 
-- 
2.43.0


From 63da3750bbd007403f5bae22642ee52593d7a95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:02 +0000
Subject: [PATCH 094/127] fix: an IPv4 network text could have a mask of more
 than 32 bits

---
 code/src/swoc_ip.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index f8cc60c..252f681 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -866,7 +866,7 @@ bool
 IP4Net::load(TextView text) {
   if (auto mask_text = text.split_suffix_at('/'); !mask_text.empty()) {
     IPMask mask;
-    bool mask_p = mask.load(mask_text);
+    bool mask_p = mask.load(mask_text) && mask.width() <= IP4Addr::WIDTH;
     if (IP4Addr addr; addr.load(text)) {
       if (!mask_p) {
         if (IP4Addr m; m.load(mask_text)) {
@@ -926,6 +926,7 @@ IPNet::load(TextView text) {
         return true;
       }
     } else if (IP4Addr a4; a4.load(text)) {
+      mask_p = mask_p && mask.width() <= IP4Addr::WIDTH;
       if (!mask_p) {
         if (IP4Addr m; m.load(mask_text)) {
           mask   = IPMask::mask_for(m);
-- 
2.43.0


From 3ea1e3d4aad4b2bf3b6d0d4f733a8397fb2defd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 095/127] fix: IPEndpoint::tokenize read past the end of the
 text

---
 code/src/swoc_ip.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 252f681..476b43e 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -168,10 +168,10 @@ IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_v
     bool colon_p = false;
     src.ltrim_if(&isspace);
     // Check for brackets.
-    if ('[' == *src) {
+    if (!src.empty() && '[' == *src) {
       ++src; // skip bracket.
       *addr = src.take_prefix_at(']');
-      if (':' == *src) {
+      if (!src.empty() && ':' == *src) {
         colon_p = true;
         ++src;
       }
-- 
2.43.0


From cbc940816f5197654f37fe5ba2ba3bba4caec9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 096/127] fix: an IPv6 address with an opening but no closing
 bracket was accepted

---
 code/src/swoc_ip.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 476b43e..5fcf475 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -169,6 +169,10 @@ IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_v
     src.ltrim_if(&isspace);
     // Check for brackets.
     if (!src.empty() && '[' == *src) {
+      if (src.find(']') == TextView::npos) { // no closing bracket, not an address.
+        *rest = src;
+        return false;
+      }
       ++src; // skip bracket.
       *addr = src.take_prefix_at(']');
       if (!src.empty() && ':' == *src) {
-- 
2.43.0


From d42a0e2f8656528a713853e379f555b45ae02095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 097/127] fix: a failed parse of an IPEndpoint did not
 invalidate it

---
 code/src/swoc_ip.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 5fcf475..15b9599 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -211,6 +211,7 @@ IPEndpoint::parse(std::string_view const &str) {
     this->assign(srv);
     return true;
   }
+  this->invalidate();
   return false;
 }
 
-- 
2.43.0


From 1fef23e1ac07e9504f967743a2f1ba3fbb700f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 098/127] fix: an IPEndpoint made from an invalid address or
 service was uninitialized

---
 code/include/swoc/IPEndpoint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/IPEndpoint.h b/code/include/swoc/IPEndpoint.h
index 0cfde9c..4640bd0 100644
--- a/code/include/swoc/IPEndpoint.h
+++ b/code/include/swoc/IPEndpoint.h
@@ -281,11 +281,11 @@ inline IPEndpoint::IPEndpoint() {
   sa.sa_family = AF_UNSPEC;
 }
 
-inline IPEndpoint::IPEndpoint(IPAddr const &addr) {
+inline IPEndpoint::IPEndpoint(IPAddr const &addr) : IPEndpoint() {
   this->assign(addr);
 }
 
-inline IPEndpoint::IPEndpoint(IPSrv const &srv) {
+inline IPEndpoint::IPEndpoint(IPSrv const &srv) : IPEndpoint() {
   this->assign(srv);
 }
 
-- 
2.43.0


From 6ba0c0e11bb404a5cac8ab58603419e0400b48c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 099/127] fix: assigning a socket address to itself was
 reported as a failure

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 15b9599..1810177 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -63,7 +63,7 @@ IPEndpoint::assign(sockaddr *dst, sockaddr const *src) {
       memcpy(dst, src, n);
     }
   }
-  return n != 0;
+  return self_type::is_valid(dst);
 }
 
 IPEndpoint &
-- 
2.43.0


From 4b9dae0435195479a8ee08317bee320ce6527ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 100/127] fix: a port with leading zeros was read as octal

---
 code/src/swoc_ip.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 1810177..4240f75 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -766,7 +766,7 @@ IP4Srv::load(swoc::TextView text) {
     if (rest.empty()) {
       uintmax_t n = 0;
       if (!port_text.empty()) {
-        n = swoc::svtou(port_text, &rest);
+        n = swoc::svtou(port_text, &rest, 10);
         if (rest.size() != port_text.size() || n > std::numeric_limits<in_port_t>::max()) {
           return false; // bad port.
         }
@@ -792,7 +792,7 @@ IP6Srv::load(swoc::TextView text) {
     if (rest.empty()) {
       uintmax_t n = 0;
       if (!port_text.empty()) {
-        n = swoc::svtou(port_text, &rest);
+        n = swoc::svtou(port_text, &rest, 10);
         if (rest.size() != port_text.size() || n > std::numeric_limits<in_port_t>::max()) {
           return false; // bad port.
         }
@@ -818,7 +818,7 @@ IPSrv::load(swoc::TextView text) {
     if (rest.empty()) {
       uintmax_t n = 0;
       if (!port_text.empty()) {
-        n = swoc::svtou(port_text, &rest);
+        n = swoc::svtou(port_text, &rest, 10);
         if (rest.size() != port_text.size() || n > std::numeric_limits<in_port_t>::max()) {
           return false; // bad port.
         }
-- 
2.43.0


From 2a6c5af882b854ccbfca819aa60674b98c8f3c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 101/127] fix: constructors of IPEndpoint from sockaddr_in and
 sockaddr_in6 were not defined

---
 code/include/swoc/IPEndpoint.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/include/swoc/IPEndpoint.h b/code/include/swoc/IPEndpoint.h
index 4640bd0..8c3c390 100644
--- a/code/include/swoc/IPEndpoint.h
+++ b/code/include/swoc/IPEndpoint.h
@@ -293,6 +293,14 @@ inline IPEndpoint::IPEndpoint(sockaddr const *addr) {
   this->assign(addr);
 }
 
+inline IPEndpoint::IPEndpoint(sockaddr_in const *sin) {
+  this->assign(sin);
+}
+
+inline IPEndpoint::IPEndpoint(sockaddr_in6 const *sin6) {
+  this->assign(sin6);
+}
+
 inline IPEndpoint::IPEndpoint(IPEndpoint::self_type const &that) : self_type(&that.sa) {}
 
 inline IPEndpoint &
-- 
2.43.0


From c80837b7c9c40113c393504c0c14fef9b73b07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 102/127] fix: constructing an IPSrv from an IP4Srv or IP6Srv
 lost the port

---
 code/include/swoc/IPSrv.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/include/swoc/IPSrv.h b/code/include/swoc/IPSrv.h
index d4f245b..63f37c9 100644
--- a/code/include/swoc/IPSrv.h
+++ b/code/include/swoc/IPSrv.h
@@ -228,6 +228,12 @@ private:
 public:
   IPSrv() = default; ///< Default constructor.
   explicit IPSrv(IP4Addr addr, in_port_t port = 0) : _srv(IP4Srv{addr, port}), _family(addr.family()) {}
+  /// Construct from IPv4 service.
+  explicit IPSrv(IP4Srv const &srv) : _srv(srv), _family(srv.family()) {}
+
+  /// Construct from IPv6 service.
+  explicit IPSrv(IP6Srv const &srv) : _srv(srv), _family(srv.family()) {}
+
   /// Construct for IPv6 address and port.
   explicit IPSrv(IP6Addr addr, in_port_t port = 0) : _srv(IP6Srv{addr, port}), _family(addr.family()) {}
   /// Construct from generic address and port.
-- 
2.43.0


From e0dfe3889b941a08f2bf41ab8998818e37c13d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 103/127] fix: IPEndpoint::tokenize without an address argument
 returned a wrong value

---
 code/src/swoc_ip.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 4240f75..e21832a 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -147,10 +147,11 @@ bool
 IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_view *port, std::string_view *rest) {
   TextView src(str); /// Easier to work with for parsing.
   // In case the incoming arguments are null, set them here and only check for null once.
-  // it doesn't matter if it's all the same, the results will be thrown away.
-  std::string_view local;
+  // it doesn't matter if it's all the same, the results will be thrown away. The exception is the
+  // address, which determines the return value.
+  std::string_view local, local_addr;
   if (!addr) {
-    addr = &local;
+    addr = &local_addr;
   }
   if (!port) {
     port = &local;
-- 
2.43.0


From 68c62ce721962175cac322983b7f24bd13dc524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 104/127] fix: appending a path to itself used the replaced
 text

---
 code/src/swoc_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 374f4fc..0d413a3 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -43,6 +43,9 @@ path::filename() const -> self_type {
 path &
 path::operator/=(std::string_view that) {
   if (!that.empty()) { // don't waste time appending nothing.
+    if (std::less_equal<>{}(_path.data(), that.data()) && std::less<>{}(that.data(), _path.data() + _path.size())) {
+      return *this /= self_type(that); // part of this path, which can't be kept while changing the path.
+    }
     if (that.front() == SEPARATOR || _path.empty()) {
       _path.assign(that);
     } else {
-- 
2.43.0


From ab5edad060e6f65e04517caa87b391e59f9c3dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 105/127] fix: the parent of a bare file name was the file
 itself

---
 code/src/swoc_file.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 0d413a3..76bfb70 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -22,7 +22,11 @@ namespace file {
 path
 path::parent_path() const {
   TextView parent{_path};
-  parent.split_suffix_at(SEPARATOR);
+  auto idx = parent.rfind(SEPARATOR);
+  if (idx == TextView::npos) { // a bare file name, there is no parent path.
+    return {};
+  }
+  parent = parent.prefix(idx);
   return parent ? parent : "/"_tv;
 }
 
-- 
2.43.0


From d7b6f0781641b1d9b7b7ba7c05766effa75bf608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 106/127] fix: the relative path of a path with several leading
 separators was absolute

---
 code/src/swoc_file.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 76bfb70..06ab5c7 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -32,10 +32,9 @@ path::parent_path() const {
 
 path
 path::relative_path() const {
-  if (!_path.empty() && _path.front() == SEPARATOR) {
-    return _path.substr(1);
-  }
-  return *this;
+  // All leading separators, otherwise the result is still absolute.
+  auto const idx = _path.find_first_not_of(SEPARATOR);
+  return idx == std::string::npos ? self_type{} : self_type(_path.substr(idx));
 }
 
 auto
-- 
2.43.0


From 9d4b6292d8296e37a8ad942801d2662adf1a268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 107/127] fix: the TEMP variable was not used for the temporary
 directory

---
 code/src/swoc_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 06ab5c7..631b82a 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -231,7 +231,7 @@ temp_directory_path() {
   /* ISO/IEC 9945 (POSIX): The path supplied by the first environment variable found in the list TMPDIR, TMP, TEMP, TEMPDIR.
    * If none of these are found, "/tmp"
    * */
-  for (char const *tp : {"TMPDIR", "TMP", "TEMPDIR"}) {
+  for (char const *tp : {"TMPDIR", "TMP", "TEMP", "TEMPDIR"}) {
     if (auto v = ::getenv(tp); v) {
       return path(v);
     }
-- 
2.43.0


From 7f991b57062203d636bad815d368427349b00956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 108/127] fix: canonical leaked long paths and did not clear
 the error code

---
 code/src/swoc_file.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 631b82a..94089b2 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -260,14 +260,9 @@ canonical(const path &p, std::error_code &ec) {
     return {};
   }
 
-  char buf[PATH_MAX + 1];
-
-  if (auto rp = ::realpath(p.c_str(), buf); rp) {
-    return path{rp};
-  }
-
-  if (auto rp = ::realpath(p.c_str(), nullptr); rp) {
-    return path{rp};
+  ec.clear();
+  if (swoc::unique_malloc<char> rp{::realpath(p.c_str(), nullptr)}; rp) {
+    return path{rp.get()};
   }
 
   ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From 28f8dc46295587da97359e6e2107e8abfe83d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 109/127] fix: copying a directory succeeded with an empty file

---
 code/src/swoc_file.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 94089b2..6facc25 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -343,7 +343,13 @@ copy(const path &from, const path &to, std::error_code &ec) {
     ec = std::error_code(errno, std::system_category());
     return false;
   }
-  auto src_fs = file::status(from, local_ec);
+  auto src_fs = file::status(from, ec);
+  if (ec) {
+    return false;
+  } else if (is_dir(src_fs)) {
+    ec = std::error_code(EISDIR, std::system_category());
+    return false;
+  }
 
   path final_to;
   if (auto fs = file::status(to, local_ec); !(local_ec && ENOENT == local_ec.value()) && is_dir(fs)) {
-- 
2.43.0


From aada935d3133201c86a4f77ad95da9b524cbdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 110/127] fix: copy reported success after read and write
 errors

---
 code/src/swoc_file.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 6facc25..57c26b9 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -365,13 +365,21 @@ copy(const path &from, const path &to, std::error_code &ec) {
   }
 
   while (true) {
-    if (auto n = read(src_fd, span.data(), span.size()); n > 0) {
-      if (::write(dst_fd, span.data(), n) < n) {
+    auto n = ::read(src_fd, span.data(), span.size());
+    if (n < 0) {
+      ec = std::error_code(errno, std::system_category());
+      return false;
+    } else if (n == 0) {
+      break;
+    }
+    for (auto data = span.data(); n > 0;) {
+      auto k = ::write(dst_fd, data, n);
+      if (k < 0) {
         ec = std::error_code(errno, std::system_category());
-        break;
+        return false;
       }
-    } else {
-      break;
+      data += k;
+      n    -= k;
     }
   }
 
-- 
2.43.0


From 26377f2dc1cfbcc99f3931bfa41ec4c7d3385208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 111/127] fix: copy to a longer file left the end of the
 previous content

---
 code/src/swoc_file.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 57c26b9..e3f151f 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -364,6 +364,7 @@ copy(const path &from, const path &to, std::error_code &ec) {
     return false;
   }
 
+  off_t size = 0; // # of bytes copied.
   while (true) {
     auto n = ::read(src_fd, span.data(), span.size());
     if (n < 0) {
@@ -380,9 +381,17 @@ copy(const path &from, const path &to, std::error_code &ec) {
       }
       data += k;
       n    -= k;
+      size += k;
     }
   }
 
+  // Drop the tail of a longer previous content. Done last because @a to can be the same file as @a from.
+  struct ::stat dst_stat {};
+  if (0 != ::fstat(dst_fd, &dst_stat) || (S_ISREG(dst_stat.st_mode) && 0 != ::ftruncate(dst_fd, size))) {
+    ec = std::error_code(errno, std::system_category());
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From d62f3ab959b470c1107aee7b111f14936a4fe9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 112/127] fix: remove_all deleted the targets of symbolic links

---
 code/src/swoc_file.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index e3f151f..6f97ae9 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -395,22 +395,24 @@ copy(const path &from, const path &to, std::error_code &ec) {
   return true;
 }
 
+namespace {
+
+// Remove @a p and nested entries. @a ec is only changed by a failure, to not lose that of another entry.
 uintmax_t
-remove_all(const path &p, std::error_code &ec) {
+remove_tree(const path &p, std::error_code &ec) {
   // coverity TOCTOU - issue is doing stat before doing operation. Stupid complaint, ignore.
   DIR *dir             = nullptr;
   struct dirent *entry = nullptr;
-  std::error_code err;
   uintmax_t zret = 0;
 
   struct ::stat s {};
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
     return zret;
-  } else if (::stat(p.c_str(), &s) < 0) {
+  } else if (::lstat(p.c_str(), &s) < 0) { // symbolic links must not be followed.
     ec = std::error_code(errno, std::system_category());
     return zret;
-  } else if (S_ISREG(s.st_mode)) { // regular file, try to remove it!
+  } else if (!S_ISDIR(s.st_mode)) { // not a directory, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
@@ -418,9 +420,6 @@ remove_all(const path &p, std::error_code &ec) {
       ++zret;
     }
     return zret;
-  } else if (!S_ISDIR(s.st_mode)) { // not a directory
-    ec = std::error_code(ENOTDIR, std::system_category());
-    return zret;
   }
   // Invariant - @a p is a directory.
 
@@ -438,18 +437,27 @@ remove_all(const path &p, std::error_code &ec) {
     }
     child  = p;
     child /= entry->d_name;
-    zret  += remove_all(child, ec);
+    zret  += remove_tree(child, ec);
   }
 
   if (0 != rmdir(p.c_str())) {
     ec = std::error_code(errno, std::system_category());
+  } else {
+    ++zret;
   }
-  ++zret;
 
   closedir(dir);
   return zret;
 }
 
+} // namespace
+
+uintmax_t
+remove_all(const path &p, std::error_code &ec) {
+  ec.clear();
+  return remove_tree(p, ec);
+}
+
 bool
 remove(path const &p, std::error_code &ec) {
   // coverity TOCTOU - issue is doing stat before doing operation. Stupid complaint, ignore.
-- 
2.43.0


From 8c6db05a0cbd38e04e0f3ffe6cc4d851df4fa42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 113/127] fix: remove failed for dangling links and special
 files, and after an earlier error

---
 code/src/swoc_file.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 6f97ae9..06a57e6 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -462,22 +462,21 @@ bool
 remove(path const &p, std::error_code &ec) {
   // coverity TOCTOU - issue is doing stat before doing operation. Stupid complaint, ignore.
   struct ::stat fs {};
+  ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
-  } else if (::stat(p.c_str(), &fs) < 0) {
+  } else if (::lstat(p.c_str(), &fs) < 0) {
     ec = std::error_code(errno, std::system_category());
-  } else if (S_ISREG(fs.st_mode)) { // regular file, try to remove it!
+  } else if (S_ISDIR(fs.st_mode)) {
     // coverity[toctou : SUPPRESS]
-    if (unlink(p.c_str()) != 0) {
+    if (rmdir(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
     }
-  } else if (S_ISDIR(fs.st_mode)) { // not a directory
+  } else { // not a directory, try to remove it!
     // coverity[toctou : SUPPRESS]
-    if (rmdir(p.c_str()) != 0) {
+    if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
     }
-  } else {
-    ec = std::error_code(EINVAL, std::system_category());
   }
   return !ec;
 }
-- 
2.43.0


From 248901dd67e738d920425edac4e0a0f852a38681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 114/127] fix: loading a file lost content after a short read

---
 code/src/swoc_file.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 06a57e6..de29c20 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -492,12 +492,18 @@ load(const path &p, std::error_code &ec) {
     if (0 != ::fstat(fd, &info)) {
       ec = std::error_code(errno, std::system_category());
     } else {
-      auto n = info.st_size;
-      zret.resize(n);
-      auto read_len = ::read(fd, zret.data(), n);
-      if (read_len < n) {
+      size_t n = 0; // # of bytes loaded.
+      ssize_t k;
+      zret.resize(info.st_size + 1); // Extra space to find the end of the file.
+      while ((k = ::read(fd, zret.data() + n, zret.size() - n)) > 0) {
+        if ((n += k) == zret.size()) { // longer than reported.
+          zret.resize(2 * n);
+        }
+      }
+      if (k < 0) {
         ec = std::error_code(errno, std::system_category());
       }
+      zret.resize(n);
     }
   }
   return zret;
-- 
2.43.0


From 0e7902b428803cc5c5d9462ad35726236a769404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 115/127] fix: the FNV hash of characters above 127 was wrong

---
 code/include/swoc/ext/HashFNV.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/ext/HashFNV.h b/code/include/swoc/ext/HashFNV.h
index b22d43f..62c7233 100644
--- a/code/include/swoc/ext/HashFNV.h
+++ b/code/include/swoc/ext/HashFNV.h
@@ -177,7 +177,7 @@ template <typename X, typename V>
 auto
 Hash32FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<uint8_t>(*view); // octets, a negative character must not be extended.
     hval += (hval << 1) + (hval << 4) + (hval << 7) + (hval << 8) + (hval << 24);
   }
   return *this;
@@ -221,7 +221,7 @@ template <typename X, typename V>
 auto
 Hash64FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<uint8_t>(*view); // octets, a negative character must not be extended.
     hval += (hval << 1) + (hval << 4) + (hval << 5) + (hval << 7) + (hval << 8) + (hval << 40);
   }
   return *this;
-- 
2.43.0


From 042b00f0c001de56260118196f1db20549921ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 116/127] fix: the short name of E2BIG had a trailing space

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 7e91183..a884716 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -809,7 +809,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "SUCCESS", "EPERM",
    "ENOENT", "ESRCH",
    "EINTR", "EIO",
-   "ENXIO", "E2BIG ",
+   "ENXIO", "E2BIG",
    "ENOEXEC", "EBADF",
    "ECHILD", "EAGAIN",
    "ENOMEM", "EACCES",
-- 
2.43.0


From 9f637e20205fda0862b7af41c3961ebc653d7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 117/127] fix: formatting a date with an empty format read in
 front of it

---
 code/src/bw_format.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index a884716..afb6ceb 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -917,6 +917,9 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
     struct tm t {};
     auto r = w.remaining();
     size_t n{0};
+    if (date._fmt.empty()) { // nothing to print, and no character to check.
+      return w;
+    }
     // Verify @a fmt is null terminated, even outside the bounds of the view.
     if (date._fmt.data()[date._fmt.size() - 1] != 0 && date._fmt.data()[date._fmt.size()] != 0) {
       throw(std::invalid_argument{"BWF Date String is not null terminated."});
-- 
2.43.0


From 51281dfb993f2cf1aee50c9bdb583422559200ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 118/127] fix: a date longer than 255 characters was dropped if
 it did not fit in the buffer

---
 code/src/bw_format.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index afb6ceb..131c33e 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -940,9 +940,21 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
       // Direct write didn't work. Unfortunately need to write to a temporary
       // buffer or the sizing isn't correct if @a w is clipped because @c
       // strftime returns 0 if the buffer isn't large enough.
-      char buff[256]; // hope for the best - no real way to resize appropriately on failure.
+      char buff[256];
       n = strftime(buff, sizeof(buff), date._fmt.data(), &t);
-      w.write(buff, n);
+      if (n > 0) {
+        w.write(buff, n);
+      } else {
+        // Too long for the buffer, or no text at all (e.g. "%p" in some locales) which looks the same.
+        // Retry with more space, up to more than any reasonable expansion of the format.
+        std::string text;
+        size_t const limit = 1024 + 128 * date._fmt.size();
+        for (size_t size = 2 * sizeof(buff); n == 0 && size < 2 * limit; size *= 2) {
+          text.resize(size);
+          n = strftime(text.data(), text.size(), date._fmt.data(), &t);
+        }
+        w.write(text.data(), n);
+      }
     }
   }
   return w;
-- 
2.43.0


From ad3fb70780f85b92d19132a2b088460c51e84704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 119/127] fix: a pattern with a negative count was repeated
 without limit

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 131c33e..3a10f97 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -962,7 +962,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
 
 BufferWriter &
 bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Pattern const &pattern) {
-  if (!pattern._text.empty()) { // If there's no text, no point in looping.
+  if (!pattern._text.empty() && pattern._n > 0) { // If there's no text, no point in looping.
     auto limit        = std::min<size_t>(spec._max, pattern._text.size() * pattern._n);
     decltype(limit) n = 0;
     while (n < limit) {
-- 
2.43.0


From cfb3f49277244e832c00792c176ab944f84eef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 120/127] fix: an error code was padded to the width for the
 name and the number each

---
 code/src/bw_format.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 3a10f97..167e8a9 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -984,12 +984,15 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, std::error_code const &ec) {
     bwformat(w, spec, ec.value());
   } else {
     if ((&ec.category() == G_CAT || &ec.category() == S_CAT) && swoc::ERRNO_RANGE.contains(ec.value())) {
-      bwformat(w, spec, swoc::ERRNO_SHORT_NAME[ec.value()]);
+      bwf::Spec name_spec{spec};
+      name_spec._min = 0; // alignment is done for the entire output.
+      bwformat(w, name_spec, swoc::ERRNO_SHORT_NAME[ec.value()]);
     } else {
       w.write(ec.message());
     }
     if (spec._type != 's' && spec._type != 'S') {
-      w.write(' ').write('[').format(spec, ec.value()).write(']');
+      w.write(' ');
+      w.print(number_fmt, ec.value());
     }
   }
   return w;
-- 
2.43.0


From cf8ffe5c552c2310a0d3eb8f6fcbc4c763cf9f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 121/127] fix: an exception was padded to the width without its
 prefix

---
 code/include/swoc/bwf_std.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/bwf_std.h b/code/include/swoc/bwf_std.h
index bf26ecf..29497ba 100644
--- a/code/include/swoc/bwf_std.h
+++ b/code/include/swoc/bwf_std.h
@@ -48,9 +48,10 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, std::chrono::time_point<Clock,
 }
 
 inline BufferWriter &
-bwformat(BufferWriter &w, bwf::Spec const &spec, std::exception const &e) {
+bwformat(BufferWriter &w, bwf::Spec const & /* spec */, std::exception const &e) {
   w.write("Exception - "_tv);
-  return bwformat(w, spec, e.what());
+  w.write(std::string_view{e.what()}); // alignment is done for the entire output.
+  return w;
 }
 
 }} // namespace swoc::SWOC_VERSION_NS
-- 
2.43.0


From e7de5d6aab16a22bf832f71168ebc442879cee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 122/127] fix: the short name of EL2HLT was misspelled

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 167e8a9..a3e85b7 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -831,7 +831,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "ECHRNG", "EL2NSYNC",
    "EL3HLT", "EL3RST",
    "ELNRNG", "EUNATCH",
-   "ENOCSI", "EL2HTL",
+   "ENOCSI", "EL2HLT",
    "EBADE", "EBADR",
    "EXFULL", "ENOANO",
    "EBADRQC", "EBADSLT",
-- 
2.43.0


From e3f71c4815d2f96847625f8d376dcf0cdcf005be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 123/127] fix: the family of an address was printed as number
 instead of name

---
 code/src/bw_ip_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_ip_format.cc b/code/src/bw_ip_format.cc
index 2fd66fb..25cb07c 100644
--- a/code/src/bw_ip_format.cc
+++ b/code/src/bw_ip_format.cc
@@ -289,7 +289,7 @@ bwformat(BufferWriter &w, Spec const &spec, IPAddr const &addr) {
     if (spec.has_numeric_type()) {
       bwformat(w, local_spec, static_cast<uintmax_t>(addr.family()));
     } else {
-      swoc::bwformat(w, local_spec, addr.family());
+      swoc::bwformat(w, local_spec, IPEndpoint::family_name(addr.family()));
     }
   }
   return w;
-- 
2.43.0


From 5fb16448161536220977b3e8ce34958ac6b969b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 124/127] fix: block sizes of 2 GiB and more overflowed in
 MemArena

---
 code/include/swoc/MemArena.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 330501f..8302adb 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -473,9 +473,9 @@ protected:
   /// Clean up the active list
   void destroy_active();
 
-  using Page        = Scalar<4096>;            ///< Size for rounding block sizes.
-  using QuarterPage = Scalar<Page::SCALE / 4>; ///< Quarter page - unit for sub page sizes.
-  using Paragraph   = Scalar<16>;              ///< Minimum unit of memory allocation.
+  using Page        = Scalar<4096, size_t>;            ///< Size for rounding block sizes.
+  using QuarterPage = Scalar<Page::SCALE / 4, size_t>; ///< Quarter page - unit for sub page sizes.
+  using Paragraph   = Scalar<16, size_t>;              ///< Minimum unit of memory allocation.
 
   static constexpr size_t ALLOC_HEADER_SIZE = 16; ///< Guess of overhead of @c malloc
   /// Initial block size to allocate if not specified via API.
-- 
2.43.0


From 0396a4e0f5de8a1590a63ebc5519f16543a8ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 125/127] fix: arguments referring to a removed range were used
 after it was destroyed

---
 code/include/swoc/DiscreteRange.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index f675743..b5cb3a9 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -800,6 +800,18 @@ protected:
   IntrusiveDList<typename Node::Linkage> _list; ///< In order list of nodes.
   swoc::MemArena _arena{4000};                  ///< Memory Storage.
   swoc::FixedArena<Node> _fa{_arena};           ///< Node allocator and free list.
+  IntrusiveDList<typename Node::Linkage> _gone; ///< Nodes removed by the current operation.
+
+  /// Destroys removed nodes at the end of an operation and not before, because the arguments of the
+  /// operation can be references to data in the space, e.g. the payload of a range.
+  struct Cleaner {
+    self_type &_space;
+    ~Cleaner() {
+      while (auto node = _space._gone.take_head()) {
+        _space._fa.destroy(node);
+      }
+    }
+  };
 
   // Utility methods to avoid having casts scattered all over.
   Node *
@@ -1238,7 +1250,7 @@ void
 DiscreteSpace<METRIC, PAYLOAD>::remove(DiscreteSpace::Node *node) {
   _root = static_cast<Node *>(node->remove());
   _list.erase(node);
-  _fa.destroy(node);
+  _gone.append(node);
 }
 
 template <typename METRIC, typename PAYLOAD>
@@ -1276,6 +1288,7 @@ DiscreteSpace<METRIC, PAYLOAD>::insert_after(DiscreteSpace::Node *spot, Discrete
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
+  Cleaner cleaner{*this};
   Node *n = this->lower_node(range.min()); // current node.
   if (nullptr == n) { // all ranges start after the minimum, but may still overlap.
     n = this->head();
@@ -1310,6 +1323,7 @@ DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAYLOAD const &payload) {
+  Cleaner cleaner{*this};
   Node *n = this->lower_node(range.min()); // current node.
   Node *x = nullptr;                       // New node, gets set if we re-use an existing one.
   Node *y = nullptr;                       // Temporary for removing and advancing.
@@ -1431,6 +1445,7 @@ DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAY
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::fill(DiscreteSpace::range_type const &range, PAYLOAD const &payload) {
+  Cleaner cleaner{*this};
   // Rightmost node of interest with n->min() <= min.
   Node *n = this->lower_node(range.min());
   Node *x = nullptr; // New node (if any).
@@ -1550,6 +1565,7 @@ template <typename METRIC, typename PAYLOAD>
 template <typename F, typename U>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U const &color, F &&blender) -> self_type & {
+  Cleaner cleaner{*this};
   // Do a base check for the color to use on unmapped values. If self blending on @a color
   // is @c false, then do not color currently unmapped values.
   PAYLOAD plain_color{};                            // color to paint uncolored metrics.
-- 
2.43.0


From a2cacc63a05ffe633e9ce50e6d019da105263a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 126/127] fix: registering a sink from a sink invalidated the
 list of sinks in use

---
 code/src/Errata.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/Errata.cc b/code/src/Errata.cc
index f8088af..2dc8f2f 100644
--- a/code/src/Errata.cc
+++ b/code/src/Errata.cc
@@ -53,7 +53,9 @@ Errata::~Errata() {
 Errata &
 Errata::sink() {
   if (_data) {
-    for (auto &f : Sink_List) {
+    // A sink can register other sinks, therefore no iterators and no reference to the handle.
+    for (size_t i = 0, n = Sink_List.size(); i < n; ++i) {
+      auto f = Sink_List[i];
       (*f)(*this);
     }
     this->clear();
-- 
2.43.0


From 86db0217d4402fc7ff1272562fa916ecd0e76bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:33 +0000
Subject: [PATCH 127/127] fix: meta::let lost the value if it was given the
 variable itself, or copying failed

---
 code/include/swoc/swoc_meta.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/swoc_meta.h b/code/include/swoc/swoc_meta.h
index 72dffaa..1f2fb00 100644
--- a/code/include/swoc/swoc_meta.h
+++ b/code/include/swoc/swoc_meta.h
@@ -280,9 +280,9 @@ template <typename T> struct let {
   ~let();
 };
 
-template <typename T> let<T>::let(T &var, T const &value) : _var(var), _value(std::move(var)) {
-  _var = value;
-}
+// Copy before anything is changed, @a value can be @a var and the copy can fail.
+template <typename T> let<T>::let(T &var, T const &value) : let(var, T(value)) {}
+
 template <typename T> let<T>::let(T &var, T &&value) : _var(var), _value(std::move(var)) {
   _var = std::move(value);
 }
-- 
2.43.0

