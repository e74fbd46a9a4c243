From b059e8b2cca1f8de838218be31037fa041b2e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:11 +0000
Subject: [PATCH 001/183] fix: SegmentTree::max_right/min_left used the
 identity function pointer as a value and did not compile

---
 library/datastructure/segment_tree/segment_tree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/segment_tree/segment_tree.hpp b/library/datastructure/segment_tree/segment_tree.hpp
index d5568f9..2898f7a 100644
--- a/library/datastructure/segment_tree/segment_tree.hpp
+++ b/library/datastructure/segment_tree/segment_tree.hpp
@@ -50,10 +50,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int max_right(int l, const Pred &f) const {
             assert(0 <= l and l <= n);
-            assert(f(e));
+            assert(f(e()));
             if (l == n) return n;
             l += m;
-            T sum_l = e;
+            T sum_l = e();
             do {
                 while (l % 2 == 0) l >>= 1;
                 if (not f(op(sum_l, data[l]))) {
@@ -74,10 +74,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int min_left(int r, const Pred &f) const {
             assert(0 <= r && r <= n);
-            assert(f(e));
+            assert(f(e()));
             if (r == 0) return 0;
             r += m;
-            T sum_r = e;
+            T sum_r = e();
             do {
                 r--;
                 while (r > 1 && (r % 2)) r >>= 1;
-- 
2.43.0


From df82cb03aa5d76ccf39c84d4d90777054dffd411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:11 +0000
Subject: [PATCH 002/183] fix: CompressedSegmentTree::set in 2 or more
 dimensions overwrote the aggregates of points sharing a coordinate instead of
 recombining them

---
 .../segment_tree/compressed_segment_tree.hpp        | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/compressed_segment_tree.hpp b/library/datastructure/segment_tree/compressed_segment_tree.hpp
index 36b7ea5..dfec690 100644
--- a/library/datastructure/segment_tree/compressed_segment_tree.hpp
+++ b/library/datastructure/segment_tree/compressed_segment_tree.hpp
@@ -18,6 +18,7 @@ namespace suisen {
                 return xs.size();
             }
             int operator()(const value_type& x) const { return std::lower_bound(xs.begin(), xs.end(), x) - xs.begin(); }
+            bool contains(const value_type& x) const { return std::binary_search(xs.begin(), xs.end(), x); }
         private:
             std::vector<value_type> xs;
         };
@@ -60,8 +61,14 @@ namespace suisen {
         value_type get(const point_type& p) const {
             return data[comp(p[0]) + n].get(tail(p));
         }
+        // same as `get` if the point is registered, identity otherwise
+        value_type get_or_identity(const point_type& p) const {
+            return comp.contains(p[0]) ? data[comp(p[0]) + n].get_or_identity(tail(p)) : e();
+        }
         void set(const point_type& p, const value_type& val) {
-            for (int i = comp(p[0]) + n; i; i >>= 1) data[i].set(tail(p), val);
+            int i = comp(p[0]) + n;
+            data[i].set(tail(p), val);
+            while (i >>= 1) data[i].set(tail(p), op(data[2 * i + 0].get_or_identity(tail(p)), data[2 * i + 1].get_or_identity(tail(p))));
         }
         void apply(const point_type& p, const value_type& val) {
             for (int i = comp(p[0]) + n; i; i >>= 1) data[i].apply(tail(p), val);
@@ -112,6 +119,10 @@ namespace suisen {
         value_type get(const point_type &i) const {
             return data[comp(i) + n];
         }
+        // same as `get` if the point is registered, identity otherwise
+        value_type get_or_identity(const point_type& i) const {
+            return comp.contains(i) ? data[comp(i) + n] : e();
+        }
 
         void set(const point_type& p, const value_type& val) {
             int i = comp(p) + n;
-- 
2.43.0


From b539980687daa08870a9f60d890be54edd3deda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 003/183] fix: LazySegmentTree::suffix_prod aborted on its own
 range assertion unless the size is a power of two

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 0e0fab6..90af0f9 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -44,7 +44,7 @@ namespace suisen {
 
         value_type prod(int l, int r) { return (*this)(l, r); }
         value_type prefix_prod(int r) { return (*this)(0, r); }
-        value_type suffix_prod(int l) { return (*this)(l, m); }
+        value_type suffix_prod(int l) { return (*this)(l, n); }
         value_type all_prod() const { return data[1]; }
 
         auto operator[](int p) {
-- 
2.43.0


From 5b223843d850c232bb7240a89b2d2419e01fcce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 004/183] fix: LazySegmentTree::min_left pushed the wrong path,
 missing pending operators and writing out of bounds at r = size

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 90af0f9..611fef0 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -86,7 +86,7 @@ namespace suisen {
             assert(g(e()));
             if (r == 0) return 0;
             r += m;
-            for (int i = lg; i >= 1; --i) push(r >> i);
+            for (int i = lg; i >= 1; --i) push((r - 1) >> i);
             value_type sum = e();
             do {
                 r--;
-- 
2.43.0


From 3ebdea9d880b3cbe1d53a2e2a4750168ff4abc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:24 +0000
Subject: [PATCH 005/183] fix: RangeSetRangeComposite(n, val) inserted
 boundaries into an unsized set and aborted for every n

---
 library/range_query/range_set_range_composite.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/library/range_query/range_set_range_composite.hpp b/library/range_query/range_set_range_composite.hpp
index 91f1193..2afb690 100644
--- a/library/range_query/range_set_range_composite.hpp
+++ b/library/range_query/range_set_range_composite.hpp
@@ -9,10 +9,9 @@ namespace suisen {
     template <typename T, T(*op)(T, T), T(*e)()>
     struct RangeSetRangeComposite {
         RangeSetRangeComposite() : RangeSetRangeComposite(0) {}
-        explicit RangeSetRangeComposite(int n, T val = e()) : _n(n), _seg(std::vector(_n, e())), _vs(n, e()) {
-            _pos.insert(0), _vs[0] = val;
-            _seg.set(0, _pow(0, n));
-            _pos.insert(_n);
+        explicit RangeSetRangeComposite(int n, T val = e()) : _n(n), _seg(std::vector(_n, e())), _vs(n, e()), _pos(n + 1) {
+            _pos.insert(0), _pos.insert(_n);
+            if (_n) _vs[0] = val, _seg.set(0, _pow(0, n));
         }
         explicit RangeSetRangeComposite(const std::vector<T>& a) : _n(a.size()), _seg(a), _vs(a), _pos(_n + 1, true) {}
 
-- 
2.43.0


From 8056b833088c998c37211ffdceb23eb60abba499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:21 +0000
Subject: [PATCH 006/183] fix: SortableSegmentTree pop_front/pop_back returned
 nothing, concat did not compile (and would free the donated nodes),
 max_right/min_left ignored descending blocks

---
 .../segment_tree/sortable_segment_tree.hpp    | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 6fd6590..7573779 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -541,7 +541,13 @@ namespace suisen {
                             t = child1(t);
                         } else {
                             size_type r_inner;
-                            std::tie(r_inner, s) = inner_node::max_right(inner(t), f, s);
+                            if (reversed(t)) {
+                                auto [l_inner, s_inner] = inner_node::min_left(inner(t), [&](const value_type& x) { return f(op(s, toggle(x))); });
+                                r_inner = inner_size(t) - l_inner;
+                                s = op(s, toggle(s_inner));
+                            } else {
+                                std::tie(r_inner, s) = inner_node::max_right(inner(t), f, s);
+                            }
                             r += r_inner;
                             break;
                         }
@@ -572,7 +578,13 @@ namespace suisen {
                             t = child0(t);
                         } else {
                             size_type l_inner;
-                            std::tie(l_inner, s) = inner_node::min_left(inner(t), f, s);
+                            if (reversed(t)) {
+                                auto [r_inner, s_inner] = inner_node::max_right(inner(t), [&](const value_type& x) { return f(op(toggle(x), s)); });
+                                l_inner = inner_size(t) - r_inner;
+                                s = op(toggle(s_inner), s);
+                            } else {
+                                std::tie(l_inner, s) = inner_node::min_left(inner(t), f, s);
+                            }
                             l -= inner_size(t) - l_inner;
                             break;
                         }
@@ -610,6 +622,11 @@ namespace suisen {
         SortableSegmentTree() : SortableSegmentTree(nullptr) {}
         SortableSegmentTree(const std::vector<std::pair<key_type, value_type>>& dat) : SortableSegmentTree(outer_node::build(dat)) {}
 
+        SortableSegmentTree(SortableSegmentTree&& other) : SortableSegmentTree(std::exchange(other._root, nullptr)) {}
+        SortableSegmentTree& operator=(SortableSegmentTree&& other) {
+            std::swap(_root, other._root);
+            return *this;
+        }
         ~SortableSegmentTree() {
             outer_node::dealloc_all(_root);
         }
@@ -665,8 +682,8 @@ namespace suisen {
             outer_node::dealloc_node(tm);
             return res;
         }
-        std::pair<key_type, value_type> pop_front() { erase(0); }
-        std::pair<key_type, value_type> pop_back() { erase(size() - 1); }
+        std::pair<key_type, value_type> pop_front() { return erase(0); }
+        std::pair<key_type, value_type> pop_back() { return erase(size() - 1); }
 
         SortableSegmentTree split(size_type i) {
             assert(0 <= i and i <= size());
@@ -675,7 +692,7 @@ namespace suisen {
             return SortableSegmentTree{ root_r };
         }
         void concat(SortableSegmentTree tr) {
-            _root = outer_node::concat(_root, tr->_root);
+            _root = outer_node::concat(_root, std::exchange(tr._root, nullptr));
         }
 
         value_type prod(size_type l, size_type r) {
-- 
2.43.0


From 751d84b710e13b2e276423ffe24fb2f016a35af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:45 +0000
Subject: [PATCH 007/183] fix: reversible implicit treap iterators misspelt
 iterator_category, so they could not be used with standard algorithms or
 constructors

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 55c323a..f59126e 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -477,7 +477,7 @@ namespace suisen::internal::implicit_treap {
             using value_type = ReversibleNode::value_type;
             using pointer = std::conditional_t<constant, ReversibleNode::const_pointer, ReversibleNode::pointer>;
             using reference = std::conditional_t<constant, ReversibleNode::const_reference, ReversibleNode::reference>;
-            using iterator_cateogory = std::random_access_iterator_tag;
+            using iterator_category = std::random_access_iterator_tag;
 
             NodeIterator(): root(empty_node()), index(0) {}
 
-- 
2.43.0


From 5dcd3bc901778e61d04cb3212829eedc43dd41ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:45 +0000
Subject: [PATCH 008/183] fix: reversible implicit treap
 erase_lower_bound/erase_upper_bound passed a nullary predicate and did not
 compile

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index f59126e..86d94be 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -340,7 +340,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return not comp(x, v); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
@@ -348,7 +348,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return comp(v, x); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
-- 
2.43.0


From b2b988c6e9807cea84dfca7a9a8f39f5a21324ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:11 +0000
Subject: [PATCH 009/183] fix: reversible implicit treap push reversed children
 without toggling their aggregates, so folds of a non-commutative monoid were
 wrong after a reverse

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 86d94be..77cec46 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -74,8 +74,8 @@ namespace suisen::internal::implicit_treap {
         }
         static void push(node_pointer t) { // t : not null
             if (std::exchange(reversed(t), false)) {
-                reverse_all(child0(t));
-                reverse_all(child1(t));
+                node_type::reverse_all(child0(t));
+                node_type::reverse_all(child1(t));
             }
         }
 
-- 
2.43.0


From 125839efd1c6a108b827fc37e1719232b18e0656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:32 +0000
Subject: [PATCH 010/183] fix: red-black tree set() passed a nullary function
 to update_value and did not compile

---
 library/datastructure/bbst/red_black_tree_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 3e51775..7178e2b 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -119,7 +119,7 @@ namespace suisen::bbst::internal {
             return merge(merge(tl, top), tr);
         }
         static tree_type set(tree_type node, size_type k, value_type val) {
-            return update_value(node, k, [&val]{ return val; });
+            return update_value(node, k, [&val](const value_type&) { return val; });
         }
         static std::pair<tree_type, value_type> get(tree_type node, size_type k) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
-- 
2.43.0


From 8190bf90c18db7e3dba1efe87dd628bd5b7b5d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:25 +0000
Subject: [PATCH 011/183] fix: persistent red-black trees mutated and freed
 nodes shared with other versions (plain/segment variants on every operation,
 all variants on set/update_value/erase)

---
 library/datastructure/bbst/persistent_red_black_tree_base.hpp | 3 +++
 library/datastructure/bbst/red_black_tree_base.hpp            | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/library/datastructure/bbst/persistent_red_black_tree_base.hpp b/library/datastructure/bbst/persistent_red_black_tree_base.hpp
index 1687ca3..5b35617 100644
--- a/library/datastructure/bbst/persistent_red_black_tree_base.hpp
+++ b/library/datastructure/bbst/persistent_red_black_tree_base.hpp
@@ -49,6 +49,9 @@ namespace suisen::bbst::internal {
             if (not node) return node;
             return &(*base_type::create_leaf() = *node);
         }
+        static tree_type push(tree_type node) {
+            return clone(node);
+        }
     };
 }
 
diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 7178e2b..b002fda 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -105,6 +105,7 @@ namespace suisen::bbst::internal {
 
         static std::pair<tree_type, value_type> erase(tree_type node, size_type k) {
             auto [tl, tm, tr] = split_range(node, k, k + 1);
+            tm = node_type::push(tm);
             value_type erased_value = tm->_val;
             free_node(tm);
             return { merge(tl, tr) , erased_value };
@@ -115,6 +116,7 @@ namespace suisen::bbst::internal {
         template <typename Fun>
         static tree_type update_value(tree_type node, size_type k, Fun &&fun) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
+            top = node_type::push(top);
             top->_val = fun(top->_val);
             return merge(merge(tl, top), tr);
         }
-- 
2.43.0


From 89ad270f7a3e05c357aec61cfff80b31ac6665b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:33 +0000
Subject: [PATCH 012/183] fix: DynamicSequence::reverse_all called a misspelt
 function and did not compile

---
 library/datastructure/dynamic_sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/dynamic_sequence.hpp b/library/datastructure/dynamic_sequence.hpp
index 302fad6..8a71d3b 100644
--- a/library/datastructure/dynamic_sequence.hpp
+++ b/library/datastructure/dynamic_sequence.hpp
@@ -209,7 +209,7 @@ struct DynamicSequenceBase {
             root = SplayNode::reverse(root, l, r);
         }
         void reverse_all() {
-            SplayNode::reverese_all(root);
+            SplayNode::reverse_all(root);
         }
     protected:
         mutable node_ptr_t root;
-- 
2.43.0


From 59b0112d82e5176221dc50434da05eb4b1a59817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 013/183] fix: persistent (lazy) segment tree:
 max_right<pred>/min_left<pred> were static and could not compile

---
 .../segment_tree/persistent_lazy_segment_tree.hpp             | 4 ++--
 .../datastructure/segment_tree/persistent_segment_tree.hpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 4aea0a9..871fa49 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -260,7 +260,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename Pred>
@@ -269,7 +269,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index b75814b..ec53449 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -210,7 +210,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename F>
@@ -219,7 +219,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
-- 
2.43.0


From de39f7159c58d7cb82852d5a88b1cc89de88f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 014/183] fix: persistent (lazy) segment tree: building an
 empty tree recursed without end

---
 .../datastructure/segment_tree/persistent_lazy_segment_tree.hpp  | 1 +
 library/datastructure/segment_tree/persistent_segment_tree.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 871fa49..de9528e 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -64,6 +64,7 @@ namespace suisen {
                     }
                     return res;
                 };
+                if (dat.empty()) return nullptr;
                 return rec(rec, 0, dat.size());
             }
 
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index ec53449..0fdfe49 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -47,6 +47,7 @@ namespace suisen {
                     }
                     return res;
                 };
+                if (dat.empty()) return nullptr;
                 return rec(rec, 0, dat.size());
             }
 
-- 
2.43.0


From 03a0871f145f8a93cb1cb0d2e27d0496510db19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 015/183] fix: persistent segment trees: leaves built after
 clear_pool() kept stale child pointers

---
 .../segment_tree/persistent_commutative_dual_segment_tree.hpp    | 1 +
 .../datastructure/segment_tree/persistent_dual_segment_tree.hpp  | 1 +
 .../datastructure/segment_tree/persistent_lazy_segment_tree.hpp  | 1 +
 library/datastructure/segment_tree/persistent_segment_tree.hpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp b/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp
index a47e758..d730ad2 100644
--- a/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp
@@ -30,6 +30,7 @@ namespace suisen {
             static node_pointer_type build(const int n) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
                     node_pointer_type res = _pool.alloc();
+                    res->_ch[0] = res->_ch[1] = nullptr;
                     res->_laz = id();
                     if (r - l > 1) {
                         int m = (l + r) >> 1;
diff --git a/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp b/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
index 7b0ffba..fa0fa87 100644
--- a/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
@@ -50,6 +50,7 @@ namespace suisen {
             static node_pointer_type build(const int n) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
                     node_pointer_type res = _pool.alloc();
+                    res->_ch[0] = res->_ch[1] = nullptr;
                     res->_laz = id();
                     if (r - l > 1) {
                         int m = (l + r) >> 1;
diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index de9528e..a426069 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -54,6 +54,7 @@ namespace suisen {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
                     node_pointer_type res = _pool.alloc();
                     if (r - l == 1) {
+                        res->_ch[0] = res->_ch[1] = nullptr;
                         res->_dat = dat[l];
                         res->_laz = id();
                     } else {
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index 0fdfe49..78d03a6 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -39,6 +39,7 @@ namespace suisen {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
                     node_pointer_type res = _pool.alloc();
                     if (r - l == 1) {
+                        res->_ch[0] = res->_ch[1] = nullptr;
                         res->_dat = dat[l];
                     } else {
                         int m = (l + r) >> 1;
-- 
2.43.0


From 74f8c55e53a17fa4e6806f085be640a742e8af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 016/183] fix: PersistentArray::dump filled every position with
 the value at index 0

---
 library/datastructure/persistent_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/persistent_array.hpp b/library/datastructure/persistent_array.hpp
index 7be4f0f..3c7b31c 100644
--- a/library/datastructure/persistent_array.hpp
+++ b/library/datastructure/persistent_array.hpp
@@ -59,7 +59,7 @@ namespace suisen {
                 std::vector<value_type> res;
                 auto dfs = [&](auto dfs, node_pointer_type cur, int id, int p) -> void {
                     if (int(res.size()) <= id) res.resize(id + 1);
-                    res[id] = node->_val;
+                    res[id] = cur->_val;
                     int np = p << lg_ary, nid = id + p;
                     for (int d = 1; d < 1 << lg_ary; ++d, nid += p) {
                         if (cur->_ch[d]) dfs(dfs, cur->_ch[d], nid, np);
-- 
2.43.0


From 92c5f01ef228491746070b8c7fd2ffd2279a24cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 017/183] fix: PersistentFenwickTree ignored the initial values
 (and used __builtin_clz(0) for size 0)

---
 .../fenwick_tree/persistent_fenwick_tree.hpp              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
index e6335f7..eeeaf21 100644
--- a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
@@ -34,9 +34,10 @@ namespace suisen {
                     if (p == 0) return nullptr;
                     const int np = p >> 1;
                     node_pointer_type res = _pool.alloc();
-                    res->_ch[0] = rec(rec, np, id - np);
+                    res->_ch[0] = rec(rec, np, id - np), res->_ch[1] = nullptr;
                     if (id + 1 <= n) res->_ch[1] = rec(rec, np, id + np);
-                    if (id <= n) nodes[id] = res;
+                    res->_dat = value_type{};
+                    if (id <= n) nodes[id] = res, res->_dat = dat[id - 1];
                     return res;
                 };
                 node_pointer_type res = rec(rec, p, p);
@@ -108,8 +109,7 @@ namespace suisen {
         PersistentFenwickTree(int p, node_pointer_type root) : _p(p), _root(root) {}
 
         static constexpr int floor_pow2(int n) {
-            int x = 31 - __builtin_clz(n);
-            return x < 0 ? 0 : 1 << x;
+            return n <= 0 ? 0 : 1 << (31 - __builtin_clz(n));
         }
     };
 }
-- 
2.43.0


From 958241a5d9e61a03a0f267922bca39fb88a987b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:51 +0000
Subject: [PATCH 018/183] fix: PersistentUnionFind: path compression wrote into
 nodes shared with older versions

---
 .../datastructure/union_find/persistent_union_find.hpp    | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/union_find/persistent_union_find.hpp b/library/datastructure/union_find/persistent_union_find.hpp
index 6e6539d..dad3564 100644
--- a/library/datastructure/union_find/persistent_union_find.hpp
+++ b/library/datastructure/union_find/persistent_union_find.hpp
@@ -19,13 +19,11 @@ namespace suisen {
 
         // Get the root of `x`. equivalent to `operator[](x)`
         int root(int x) {
-            static std::vector<int> buf;
+            // no path compression: nodes are shared with other versions
             while (true) {
-                if (int r = _dat.get(x); r >= 0) buf.push_back(std::exchange(x, r));
-                else break;
+                if (int r = _dat.get(x); r >= 0) x = r;
+                else return x;
             }
-            while (buf.size()) _dat.mut_set(buf.back(), x), buf.pop_back();
-            return x;
         }
         // Get the root of `x`. euivalent to `root(x)`
         int operator[](int x) {
-- 
2.43.0


From a334d1e292d12c51f3f7a5a9a22dcd0b6d32e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:12 +0000
Subject: [PATCH 019/183] fix: PersistentLazySegmentTree::apply(i, f) forwarded
 f as the wrong type and could not compile

---
 .../datastructure/segment_tree/persistent_lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index a426069..e0ac92d 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -249,7 +249,7 @@ namespace suisen {
         template <typename Func>
         PersistentLazySegmentTree apply(int i, Func&& f) {
             assert(0 <= i and i < _n);
-            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<F>(f)));
+            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<Func>(f)));
         }
         PersistentLazySegmentTree set(int i, const value_type& v) {
             assert(0 <= i and i < _n);
-- 
2.43.0


From 1e251d7b4d99c3bb00f35366c9401abc1b5aedb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:28 +0000
Subject: [PATCH 020/183] fix: PersistentLazySegmentTree::dump emitted internal
 nodes and composed pending operators in the wrong order

---
 .../segment_tree/persistent_lazy_segment_tree.hpp             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index e0ac92d..e430db1 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -196,8 +196,8 @@ namespace suisen {
                     if (is_leaf(cur)) {
                         *it++ = mapping(f, cur->_dat);
                     } else {
-                        *it++ = mapping(f, cur->_dat);
-                        rec(rec, cur->_ch[0], composition(cur->_laz, f)), rec(rec, cur->_ch[1], composition(cur->_laz, f));
+                        const operator_type g = composition(f, cur->_laz);
+                        rec(rec, cur->_ch[0], g), rec(rec, cur->_ch[1], g);
                     }
                 };
                 rec(rec, node, id());
-- 
2.43.0


From 25954e5ccaaefa8829d57cc6749d86a3e24b699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 021/183] fix: splay tree maps: erase_index called functions
 that do not exist and accepted index == size()

---
 library/datastructure/lazy_eval_map.hpp      | 2 +-
 library/datastructure/range_foldable_map.hpp | 2 +-
 library/datastructure/splay_tree_map.hpp     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 8ea8850..c908aec 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -89,7 +89,7 @@ class LazyEvalMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
diff --git a/library/datastructure/range_foldable_map.hpp b/library/datastructure/range_foldable_map.hpp
index af42871..53e4a10 100644
--- a/library/datastructure/range_foldable_map.hpp
+++ b/library/datastructure/range_foldable_map.hpp
@@ -83,7 +83,7 @@ class RangeFoldableMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 821a5e5..4811151 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -206,7 +206,7 @@ struct MapNodeBase {
         return new_node;
     }
     static node_ptr_t erase_index(node_ptr_t node, int index) {
-        auto [l, r] = split(index ? node : splay(node, 0), index);
+        auto [l, r] = split_by_index(index ? node : splay_by_index(node, 0), index);
         assert(r->ch[0] == nullptr);
         node_ptr_t res = merge(l, r->ch[1]);
         r->ch[1] = nullptr;
@@ -277,7 +277,7 @@ class SplayTreeMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
-- 
2.43.0


From 318a3412874febac9206859cef06ead8e2659634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 022/183] fix: splay tree maps: get_or_default could not
 compile and dropped the splayed root

---
 library/datastructure/splay_tree_map.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 4811151..08480e3 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -222,10 +222,9 @@ struct MapNodeBase {
         delete r;
         return { res, true };
     }
-    static Val get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
+    static std::pair<node_ptr_t, Val> get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
         auto [new_root, found] = find_key(node, key);
-        node = new_root;
-        return found ? new_root->val : default_value;
+        return { new_root, found ? new_root->val : default_value };
     }
 };
 
-- 
2.43.0


From 760ee8e30018523b86d57e024f82a9944bc99d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 023/183] fix: SplayTreeMap / LazyEvalMap: merging two empty
 maps aborted

---
 library/datastructure/lazy_eval_map.hpp  | 2 +-
 library/datastructure/splay_tree_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index c908aec..84cfcb3 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -149,7 +149,7 @@ class LazyEvalMap {
             return LazyEvalMap(r);
         }
         void merge(LazyEvalMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 08480e3..9f5fe83 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -308,7 +308,7 @@ class SplayTreeMap {
             return SplayTreeMap<Key, Val>(r);
         }
         void merge(SplayTreeMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
-- 
2.43.0


From 498140be56a946c41769df6bdfd70b7b96d474ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 024/183] fix: RangeFoldableMap / LazyEvalMap: operator()(l, r)
 called a function that does not exist

---
 library/datastructure/lazy_eval_map.hpp      | 2 +-
 library/datastructure/range_foldable_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 84cfcb3..d258bf1 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -102,7 +102,7 @@ class LazyEvalMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
diff --git a/library/datastructure/range_foldable_map.hpp b/library/datastructure/range_foldable_map.hpp
index 53e4a10..a2292e5 100644
--- a/library/datastructure/range_foldable_map.hpp
+++ b/library/datastructure/range_foldable_map.hpp
@@ -96,7 +96,7 @@ class RangeFoldableMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
-- 
2.43.0


From 58a0fb3d63def62add6a640a0da47bf62bb84dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 025/183] fix: BinaryTrie::xor_count_leq counted val instead of
 x ^ val (also xor_count_gt, xor_floor, xor_higher)

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index b1e2f30..f3e3caf 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -108,7 +108,7 @@ class BinaryTrie {
             }
             return res;
         }
-        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(val); }
+        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(x ^ val); }
         inline int xor_count_gt (const U x, const U val) const noexcept { return size() - xor_count_leq(x, val);    }
         inline int xor_count_geq(const U x, const U val) const noexcept { return size() - xor_count_lt(x, val);     }
         inline U xor_lower(const U x, const U val, const U default_value = ~U(0)) const noexcept {
-- 
2.43.0


From d13096995bc6c70700b0455113d1314337460507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 026/183] fix: BinaryTrie::max returned the complement of the
 maximum

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index f3e3caf..4dce48e 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -130,7 +130,7 @@ class BinaryTrie {
 
         inline U kth_min(const int k) const { return xor_kth_min(0, k); }
         inline U min() const { return xor_kth_min(0, 0); }
-        inline U max() const { return xor_kth_min(~U(0), 0); }
+        inline U max() const { return xor_kth_max(0, 0); }
         inline int count_lt (const U val) const noexcept { return xor_count_lt(0, val);  }
         inline int count_leq(const U val) const noexcept { return xor_count_leq(0, val); }
         inline int count_gt (const U val) const noexcept { return xor_count_gt(0, val);  }
-- 
2.43.0


From b754551dec79d2f41e2d72fd9bb35da877987a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 027/183] fix: BinaryTriePatricia::xor_max returned the
 complement of the maximum

---
 library/datastructure/binary_trie_patricia.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 9852540..0e6de45 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -104,7 +104,7 @@ namespace suisen {
         }
         // max{ x ^ v | v in S }
         value_type xor_max(const unsigned_value_type& x) const {
-            return xor_min(~x);
+            return xor_kth_max(x, 0);
         }
 
         // k-th smallest of { x ^ v | v in S } (0-indexed)
-- 
2.43.0


From bd506c9aa31603e5894dacbff9bf1d8bd765f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 028/183] fix: BinaryTriePatricia: shifts by the full type
 width when bit_num equals it (count, erase and xor_count_lt were wrong)

---
 library/datastructure/binary_trie_patricia.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 0e6de45..9e12640 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -138,7 +138,9 @@ namespace suisen {
         // #{ v in S | x ^ v < upper }
         __attribute__((target("bmi")))
         size_type xor_count_lt (unsigned_value_type x, unsigned_value_type upper) const {
-            if (upper >> bit_num) return _root->siz;
+            if constexpr (bit_num < uint32_t(std::numeric_limits<unsigned_value_type>::digits)) {
+                if (upper >> bit_num) return _root->siz;
+            }
             bit_reverse(x);
             bit_reverse(upper);
             internal_size_type res = 0;
@@ -253,6 +255,7 @@ namespace suisen {
         node_pointer_type _root = node_type::new_node(0, 0, 0);
 
         static constexpr unsigned_value_type cut_lower(const unsigned_value_type& val, uint32_t r) {
+            if (r >= uint32_t(std::numeric_limits<unsigned_value_type>::digits)) return val;
             return val & ((unsigned_value_type(1) << r) - 1);
         }
         static constexpr uint32_t bit_reverse_u32(uint32_t x) {
-- 
2.43.0


From a9b9d6a8565a7eae6cfcd478f83bd33c3c5785e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 029/183] fix: fenwick_tree_set::max_leq read out of bounds for
 an empty universe

---
 library/datastructure/fenwick_tree/fenwick_tree_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
index 63dad3e..82ad048 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
@@ -127,8 +127,8 @@ namespace suisen {
         // O(log n).
         // Max element <= `v` or `-1` if not exists
         int max_leq(int v) const {
-            if (v < 0) return -1;
             v = std::min(v, _n - 1);
+            if (v < 0) return -1;
             const auto [t, u] = index(v);
             const int lz = (WORD - 1) - u;
             if (const uint64_t bits = _bs[t] << lz >> lz) {
-- 
2.43.0


From 070e238a356400a2565188ca06e5dc30a0a10ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:33 +0000
Subject: [PATCH 030/183] fix: FenwickTreePrefix: construction from a vector
 lost elements (propagated parents before children)

---
 library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
index 934baf4..04ff3dc 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
@@ -9,7 +9,7 @@ namespace suisen {
         FenwickTreePrefix() : FenwickTreePrefix(0) {}
         explicit FenwickTreePrefix(int n) : _n(n), _dat(_n + 1, e()) {}
         FenwickTreePrefix(const std::vector<T> &dat) : _n(dat.size()), _dat(_n + 1, e()) {
-            for (int i = _n; i > 0; --i) {
+            for (int i = 1; i <= _n; ++i) {
                 _dat[i] = op(_dat[i], dat[i - 1]);
                 if (int p = i + (-i & i); p <= _n) _dat[p] = op(_dat[p], _dat[i]);
             }
-- 
2.43.0


From b6cff2b798d81d66c074c7daea85dcccc2b463b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:33 +0000
Subject: [PATCH 031/183] fix: MapFenwickTree::sum could not compile
 (operator[] on a const map) and truncated wide indices to int

---
 .../datastructure/fenwick_tree/fenwick_tree.hpp  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree.hpp b/library/datastructure/fenwick_tree/fenwick_tree.hpp
index 3e39a3d..d4e66c1 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree.hpp
@@ -22,9 +22,9 @@ namespace suisen {
             T sum(index_t l, index_t r) const {
                 return sum(r) - sum(l);
             }
-            auto operator[](int i) {
+            auto operator[](index_t i) {
                 struct {
-                    int i;
+                    index_t i;
                     FenwickTreeBase& ft;
                     operator T() const { return ft.sum(i, i + 1); }
                     auto& operator++() { return *this += 1; }
@@ -38,7 +38,7 @@ namespace suisen {
                 } obj{ i, *this };
                 return obj;
             }
-            T operator()(int l, int r) const { return sum(l, r); }
+            T operator()(index_t l, index_t r) const { return sum(l, r); }
 
             Container& get_internal_container() { return data; }
         protected:
@@ -47,9 +47,15 @@ namespace suisen {
             template <typename ...Args>
             FenwickTreeBase(index_t n, Args &&...args) : n(n), data(std::forward<Args>(args)...) {}
         private:
-            T sum(int r) const {
+            T sum(index_t r) const {
                 T s{};
-                for (; r; r -= r & -r) s += data[r - 1];
+                for (; r; r -= r & -r) {
+                    if constexpr (std::is_same_v<Container, std::vector<T>>) {
+                        s += data[r - 1];
+                    } else {
+                        if (auto it = data.find(r - 1); it != data.end()) s += it->second;
+                    }
+                }
                 return s;
             }
         };
-- 
2.43.0


From 89e633a3e78d8da4692c1fc906e877e0da8debb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:33 +0000
Subject: [PATCH 032/183] fix: BinaryHeap::pop of the last element accessed the
 emptied vector

---
 library/datastructure/heap/binary_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/heap/binary_heap.hpp b/library/datastructure/heap/binary_heap.hpp
index 26d84b3..c9e5118 100644
--- a/library/datastructure/heap/binary_heap.hpp
+++ b/library/datastructure/heap/binary_heap.hpp
@@ -66,7 +66,7 @@ namespace suisen {
                 std::swap(_dat.front(), _dat.back());
                 value_type res = std::move(_dat.back());
                 _dat.pop_back();
-                heapify_down(0);
+                if (not _dat.empty()) heapify_down(0);
                 return res;
             }
 
-- 
2.43.0


From c54945eb14a08076443d35505a9df664d99880e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:33 +0000
Subject: [PATCH 033/183] fix: priority_queue.hpp referred to a BinaryHeap
 template that does not exist

---
 library/datastructure/priority_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/priority_queue.hpp b/library/datastructure/priority_queue.hpp
index 2a5d2c5..f2695c2 100644
--- a/library/datastructure/priority_queue.hpp
+++ b/library/datastructure/priority_queue.hpp
@@ -5,9 +5,9 @@
 
 namespace suisen {
     template <typename T, typename Comp = std::less<T>>
-    using MinPriorityQueue = suisen::BinaryHeap<T, Comp>;
+    using MinPriorityQueue = MinBinaryHeap<T, Comp>;
     template <typename T>
-    using MaxPriorityQueue = suisen::BinaryHeap<T, std::greater<T>>;
+    using MaxPriorityQueue = MaxBinaryHeap<T>;
 } // namespace suisen
 
 
-- 
2.43.0


From 10e9802194b286c0c927705a709287b6428f75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:33 +0000
Subject: [PATCH 034/183] fix: QueueAggregation iterators could not compile
 when the sum type differs from the value type

---
 library/datastructure/queue_aggregation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/queue_aggregation.hpp b/library/datastructure/queue_aggregation.hpp
index c3988fe..14c9bfe 100644
--- a/library/datastructure/queue_aggregation.hpp
+++ b/library/datastructure/queue_aggregation.hpp
@@ -24,8 +24,8 @@ namespace suisen {
             using iterator_category = std::random_access_iterator_tag;
 
         private:
-            using fi_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_reverse_iterator;
-            using se_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_iterator;
+            using fi_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_reverse_iterator;
+            using se_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_iterator;
         public:
 
             fi_iterator_type it_l;
-- 
2.43.0


From e3e466471ddab9a739b1bb57f8e6381973cec3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:33 +0000
Subject: [PATCH 035/183] fix: DoubleEndedPriorityQueue: copies kept a pointer
 to the comparator of the object they were copied from

---
 .../datastructure/double_ended_priority_queue.hpp   | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/library/datastructure/double_ended_priority_queue.hpp b/library/datastructure/double_ended_priority_queue.hpp
index 797e321..62588f4 100644
--- a/library/datastructure/double_ended_priority_queue.hpp
+++ b/library/datastructure/double_ended_priority_queue.hpp
@@ -39,7 +39,7 @@ namespace suisen {
                 std::push_heap(_max_heap.begin(), _max_heap.end(), _comp);
             } else {
                 _min_heap.push_back(v);
-                std::push_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::push_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
         template <typename ...Args>
@@ -64,7 +64,7 @@ namespace suisen {
         }
         value_type pop_min() {
             ensure_min_heap_nonempty();
-            std::pop_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+            std::pop_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             value_type res = std::move(_min_heap.back());
             _min_heap.pop_back();
             return res;
@@ -82,10 +82,7 @@ namespace suisen {
 
     private:
         compare_type _comp;
-        struct {
-            compare_type* comp;
-            bool operator()(const value_type& x, const value_type& y) { return (*comp)(y, x); }
-        } _rev_comp{ &_comp };
+        auto rev_comp() const { return [this](const value_type& x, const value_type& y) { return _comp(y, x); }; }
 
         std::vector<value_type> _max_heap, _min_heap;
         value_type pivot;
@@ -105,7 +102,7 @@ namespace suisen {
                 std::move(_max_heap.begin(), _max_heap.begin() + mid, std::back_inserter(_min_heap));
                 _max_heap.erase(_max_heap.begin(), _max_heap.begin() + mid);
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
-                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::make_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
         void ensure_max_heap_nonempty() {
@@ -122,7 +119,7 @@ namespace suisen {
                 std::move(_min_heap.begin() + mid, _min_heap.end(), std::back_inserter(_max_heap));
                 _min_heap.erase(_min_heap.begin() + mid, _min_heap.end());
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
-                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::make_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
     };
-- 
2.43.0


From fdd090c8100cc196fa06e665d53445d637b53fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:29 +0000
Subject: [PATCH 036/183] fix: five headers reused the include guard of another
 header, so including both silently dropped one

---
 .../datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp   | 6 +++---
 library/datastructure/union_find/union_find_lazy.hpp        | 6 +++---
 library/graph/assignment_problem.hpp                        | 6 +++---
 library/tree/link_cut_tree_path_foldable.hpp                | 6 +++---
 library/tree/rerooting_invertible.hpp                       | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
index 4fedbb8..289fa97 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_SEGMENT_TREE_2D_SPARSE
-#define SUISEN_SEGMENT_TREE_2D_SPARSE
+#ifndef SUISEN_FENWICK_TREE_2D_SPARSE
+#define SUISEN_FENWICK_TREE_2D_SPARSE
 
 #include <algorithm>
 #include <cassert>
@@ -111,4 +111,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_SEGMENT_TREE_2D_SPARSE
+#endif // SUISEN_FENWICK_TREE_2D_SPARSE
diff --git a/library/datastructure/union_find/union_find_lazy.hpp b/library/datastructure/union_find/union_find_lazy.hpp
index fa738d5..8455934 100644
--- a/library/datastructure/union_find/union_find_lazy.hpp
+++ b/library/datastructure/union_find/union_find_lazy.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_UNION_FIND_COMPONENT_SUM
-#define SUISEN_UNION_FIND_COMPONENT_SUM
+#ifndef SUISEN_UNION_FIND_LAZY
+#define SUISEN_UNION_FIND_LAZY
 
 #include "library/datastructure/union_find/linked_union_find.hpp"
 
@@ -91,4 +91,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_UNION_FIND_COMPONENT_SUM
+#endif // SUISEN_UNION_FIND_LAZY
diff --git a/library/graph/assignment_problem.hpp b/library/graph/assignment_problem.hpp
index 3178006..31c2e37 100644
--- a/library/graph/assignment_problem.hpp
+++ b/library/graph/assignment_problem.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_MIN_COST_FLOW
-#define SUISEN_MIN_COST_FLOW
+#ifndef SUISEN_ASSIGNMENT_PROBLEM
+#define SUISEN_ASSIGNMENT_PROBLEM
 
 #include <algorithm>
 #include <cassert>
@@ -149,4 +149,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_MIN_COST_FLOW
+#endif // SUISEN_ASSIGNMENT_PROBLEM
diff --git a/library/tree/link_cut_tree_path_foldable.hpp b/library/tree/link_cut_tree_path_foldable.hpp
index 28f4d36..5d6ebce 100644
--- a/library/tree/link_cut_tree_path_foldable.hpp
+++ b/library/tree/link_cut_tree_path_foldable.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_LINK_CUT_TREE
-#define SUISEN_LINK_CUT_TREE
+#ifndef SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
+#define SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
 
 #include "library/tree/link_cut_tree_base.hpp"
 
@@ -64,4 +64,4 @@ namespace suisen {
     using internal::link_cut_tree::LinkCutTreePathFoldable;
 } // namespace suisen
 
-#endif // SUISEN_LINK_CUT_TREE
+#endif // SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
diff --git a/library/tree/rerooting_invertible.hpp b/library/tree/rerooting_invertible.hpp
index eb4b42f..8e1fe5b 100644
--- a/library/tree/rerooting_invertible.hpp
+++ b/library/tree/rerooting_invertible.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_REROOTING
-#define SUISEN_REROOTING
+#ifndef SUISEN_REROOTING_INVERTIBLE
+#define SUISEN_REROOTING_INVERTIBLE
 
 #include <cassert>
 #include <tuple>
@@ -180,4 +180,4 @@ namespace suisen {
     using RerootingInvertibleWeighted = internal::rerooting::RerootingInvertible<VertexWeight, EdgeWeighted>;
 } // namsepace suisen
 
-#endif // SUISEN_REROOTING
+#endif // SUISEN_REROOTING_INVERTIBLE
-- 
2.43.0


From b658425d4120dcca2b9910b3543fe28f7236df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:05 +0000
Subject: [PATCH 037/183] fix: PrioritySum::erase looked for the element in the
 wrong half (inverted comparison)

---
 library/datastructure/util/priority_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/priority_sum.hpp b/library/datastructure/util/priority_sum.hpp
index e21d5be..465dfb4 100644
--- a/library/datastructure/util/priority_sum.hpp
+++ b/library/datastructure/util/priority_sum.hpp
@@ -29,7 +29,7 @@ namespace suisen {
                 if (_head_k.size() and v == _head_k.top()) {
                     _sum -= v;
                     _head_k.pop();
-                } else if (_head_k.size() and _rev_cmp(v, _head_k.top())) {
+                } else if (_head_k.size() and _cmp(v, _head_k.top())) {
                     _sum -= v;
                     _del_head_k.push(v);
                 } else {
-- 
2.43.0


From 24fe155478929b57146ba4eb725edfa3385e5bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:02 +0000
Subject: [PATCH 038/183] fix: static_bitset: operator[] is const so that
 operator<< compiles

---
 library/datastructure/util/static_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index bff3624..5ff165b 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -111,7 +111,7 @@ namespace suisen {
         bool operator>=(const static_bitset<N>& rhs) const {
             return not (*this < rhs);
         }
-        bool operator[](std::size_t i) {
+        bool operator[](std::size_t i) const {
             return (_data[outer_index(i)] >> inner_index(i)) & 1;
         }
         operator bool() const {
-- 
2.43.0


From bce9ab1db55ee170c814684e469140f279ea4254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:02 +0000
Subject: [PATCH 039/183] fix: static_bitset: complement and left shift clear
 the bits beyond N

---
 library/datastructure/util/static_bitset.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index 5ff165b..bf4bb09 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -12,7 +12,7 @@ namespace suisen {
         static constexpr std::size_t L = (N + 63) >> 6;
     public:
         static_bitset() = default;
-        static_bitset(std::array<uint64_t, L> data) : _data(data) {}
+        static_bitset(std::array<uint64_t, L> data) : _data(data) { trim(); }
 
         static_bitset<N>& operator&=(const static_bitset<N>& rhs) {
             for (std::size_t i = 0; i < L; ++i) _data[i] &= rhs._data[i];
@@ -38,6 +38,7 @@ namespace suisen {
         static_bitset<N> operator~() const {
             static_bitset<N> res;
             for (std::size_t i = 0; i < L; ++i) res._data[i] = ~_data[i];
+            res.trim();
             return res;
         }
         static_bitset<N>& operator<<=(const std::size_t shamt) {
@@ -59,6 +60,7 @@ namespace suisen {
                 }
             }
             for (std::size_t i = large_shamt; i-- > 0;) _data[i] = 0;
+            trim();
             return *this;
         }
         static_bitset<N>& operator>>=(const std::size_t shamt) {
@@ -165,6 +167,11 @@ namespace suisen {
     private:
         std::array<uint64_t, L> _data{};
 
+        // clears the unused bits of the last block
+        void trim() {
+            if constexpr (N & 63) _data[L - 1] &= (uint64_t(1) << (N & 63)) - 1;
+        }
+
         static constexpr std::size_t outer_index(std::size_t k) {
             return k >> 6;
         }
-- 
2.43.0


From 396b0485e647d2a3774abccc875232d215553f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:02 +0000
Subject: [PATCH 040/183] fix: DynamicBitSet: bit reference operator&= no
 longer clears the other bits of the block

---
 library/datastructure/util/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/dynamic_bitset.hpp b/library/datastructure/util/dynamic_bitset.hpp
index d64b0fd..3e380cc 100644
--- a/library/datastructure/util/dynamic_bitset.hpp
+++ b/library/datastructure/util/dynamic_bitset.hpp
@@ -21,7 +21,7 @@ namespace suisen {
             void set() { b |= block(1) << i; }
             void reset() { b &= ~(block(1) << i); }
             void flip() { b ^= block(1) << i; }
-            bitref& operator&=(bool val) { b &= block(val) << i; return *this; }
+            bitref& operator&=(bool val) { b &= ~(block(not val) << i); return *this; }
             bitref& operator|=(bool val) { b |= block(val) << i; return *this; }
             bitref& operator^=(bool val) { b ^= block(val) << i; return *this; }
             bitref& operator =(bool val) { val ? set() : reset(); return *this; }
-- 
2.43.0


From aeea33d75dde63f4ccb41b21bd76ca3b60888601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:02 +0000
Subject: [PATCH 041/183] fix: RangeSet::in_the_same_range called a nonexistent
 function

---
 library/datastructure/util/range_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/range_set.hpp b/library/datastructure/util/range_set.hpp
index 11c2c83..2eb3e7c 100644
--- a/library/datastructure/util/range_set.hpp
+++ b/library/datastructure/util/range_set.hpp
@@ -35,7 +35,7 @@ struct RangeSet : public std::map<T, T> {
 
         // returns whether `x` and `y` is in this set and in the same range. O(log N)
         bool in_the_same_range(T x, T y) const {
-            auto it = get_containing_range(x);
+            auto it = find_range(x);
             return it != this->end() and it->first <= y and y <= it->second;
         }
 
-- 
2.43.0


From f8c2ec3b6271f4acfe861fddc5d82d788cd1d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:02 +0000
Subject: [PATCH 042/183] fix: WaveletMatrix: full-width (default) bit_num no
 longer shifts by the width of T

---
 library/datastructure/wavelet_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/wavelet_matrix.hpp b/library/datastructure/wavelet_matrix.hpp
index bdf7070..d4b94da 100644
--- a/library/datastructure/wavelet_matrix.hpp
+++ b/library/datastructure/wavelet_matrix.hpp
@@ -156,7 +156,7 @@ namespace suisen {
         WaveletMatrix(int n) noexcept : n(n) {}
     private:
         static_assert(bit_num > 0);
-        static constexpr T MAX = bit_num == std::numeric_limits<T>::digits ? std::numeric_limits<T>::max() : (T(1) << bit_num) - 1;
+        static constexpr T MAX = bit_num >= std::numeric_limits<T>::digits ? std::numeric_limits<T>::max() : (T(1) << bit_num) - 1;
 
         int n;
         std::array<BitVector, bit_num> bv;
@@ -168,7 +168,7 @@ namespace suisen {
         }
 
         static void check_value_bounds(T val) {
-            assert((val >> bit_num) == 0);
+            if constexpr (bit_num < std::numeric_limits<std::make_unsigned_t<T>>::digits) assert((val >> bit_num) == 0);
         }
     };
 } // namespace suisen
-- 
2.43.0


From 94ce6eea77234fb0a8d37afb70d08e65956de634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:02 +0000
Subject: [PATCH 043/183] fix: CompressedWaveletMatrix: default log_max_len is
 the width of the compressed index type

---
 library/datastructure/compressed_wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index 9e4b810..8b79e43 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -10,7 +10,7 @@
 #include "library/util/coordinate_compressor.hpp"
 
 namespace suisen {
-    template <typename T, int log_max_len = std::numeric_limits<std::make_unsigned_t<T>>::digits>
+    template <typename T, int log_max_len = std::numeric_limits<int>::digits>
     struct CompressedWaveletMatrix : private WaveletMatrix<int, log_max_len> {
         // default constructor
         CompressedWaveletMatrix() noexcept : WaveletMatrix<int, log_max_len>(0) {}
-- 
2.43.0


From ddfd266f27f52e5aa8966e476fdeae13f90bf4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:02 +0000
Subject: [PATCH 044/183] fix: CompressedWaveletMatrix::range_max_leq returned
 the default value for every nonempty range

---
 library/datastructure/compressed_wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index 8b79e43..f489ab7 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -80,7 +80,7 @@ namespace suisen {
         }
         // returns the maximum value v in WaveletMatrix[l, r) s.t. v <= upper
         inline T range_max_leq(int l, int r, T upper, T default_value = T(-1)) const {
-            if (r >= l) return default_value;
+            if (l >= r) return default_value;
             return upper == std::numeric_limits<T>::max() ? range_max(l, r) : range_max_lt(l, r, upper + 1, default_value);
         }
     private:
-- 
2.43.0


From 5a2480ab253cff08e600812c07fa88709a1ab389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:37 +0000
Subject: [PATCH 045/183] fix: SparseTable: construction from an empty vector

---
 library/datastructure/sparse_table.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/sparse_table.hpp b/library/datastructure/sparse_table.hpp
index a60c735..09a6002 100644
--- a/library/datastructure/sparse_table.hpp
+++ b/library/datastructure/sparse_table.hpp
@@ -38,9 +38,10 @@ namespace suisen {
             for (int l = 0; l < log; ++l) {
                 std::fill(flog.begin() + (1 << l), flog.begin() + (1 << (l + 1)), l);
             }
-            std::fill(flog.begin() + (1 << log), flog.end(), log);
+            if (n) std::fill(flog.begin() + (1 << log), flog.end(), log);
         }
         static int floor_log2(int i) {
+            if (i == 0) return 0;
             return 31 - __builtin_clz(i);
         }
     };
-- 
2.43.0


From 9cccb56679b5ec21ea06a9b1b7494561e392c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:37 +0000
Subject: [PATCH 046/183] fix: RMQpm1: construction from an empty vector

---
 library/algorithm/rmq_pm1.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/algorithm/rmq_pm1.hpp b/library/algorithm/rmq_pm1.hpp
index d6ad85a..25d5a5c 100644
--- a/library/algorithm/rmq_pm1.hpp
+++ b/library/algorithm/rmq_pm1.hpp
@@ -68,6 +68,7 @@ namespace suisen {
 
         std::vector<int> build() {
             std::vector<int> c(m, e());
+            if (n == 0) return c;
             for (int i = 0, p = a[0] - 1; i < n; p = a[i++]) {
                 int outer = i >> LOG;
                 c[outer] = op(c[outer], a[i]);
-- 
2.43.0


From 72f0eb22e2a6df8527fe80b0b1a402ef17a198f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:37 +0000
Subject: [PATCH 047/183] fix: default-constructed CartesianTree has no root

---
 library/datastructure/cartesian_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/cartesian_tree.hpp b/library/datastructure/cartesian_tree.hpp
index b5c2161..16fd0dd 100644
--- a/library/datastructure/cartesian_tree.hpp
+++ b/library/datastructure/cartesian_tree.hpp
@@ -14,7 +14,7 @@ namespace suisen {
 
         const int root;
 
-        CartesianTree() : base_type(), root(0) {}
+        CartesianTree() : base_type(), root(absent) {}
         CartesianTree(int root, const base_type& g) : base_type(g), root(root) {}
         CartesianTree(int root, base_type&& g) : base_type(std::move(g)), root(root) {}
 
-- 
2.43.0


From 42d94bf58ba6a2e844197da114ee164350552633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:37 +0000
Subject: [PATCH 048/183] fix: StaticRangeInversionNumberQuery: empty range
 read out of bounds

---
 library/range_query/static_range_inversion_number_query.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/range_query/static_range_inversion_number_query.hpp b/library/range_query/static_range_inversion_number_query.hpp
index 6b11528..87f231a 100644
--- a/library/range_query/static_range_inversion_number_query.hpp
+++ b/library/range_query/static_range_inversion_number_query.hpp
@@ -37,6 +37,7 @@ namespace suisen {
          * @return Inversion number of (a_l, ..., a_{r-1})
          */
         long long operator()(int l, int r) const {
+            if (l >= r) return 0;
             const int bl = l / _block_siz, br = ceil_div(r, _block_siz);
             // [bl][bl+1,...,br-2][br-1]
             if (br - bl == 1) {
-- 
2.43.0


From 3bc8fce2aae46806ba3f6cfcd2639ac4831ad435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:37 +0000
Subject: [PATCH 049/183] fix: StaticRangeModeQuery: construction from an empty
 vector divided by zero

---
 library/range_query/static_range_mode_query.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/range_query/static_range_mode_query.hpp b/library/range_query/static_range_mode_query.hpp
index c7a0aa7..89342ca 100644
--- a/library/range_query/static_range_mode_query.hpp
+++ b/library/range_query/static_range_mode_query.hpp
@@ -10,7 +10,7 @@ namespace suisen {
     template <typename T>
     struct StaticRangeModeQuery {
         StaticRangeModeQuery() = default;
-        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(::sqrt(_len)), _block_num(_cld(_len, _block_size)) {
+        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(std::max(1, int(::sqrt(_len)))), _block_num(_cld(_len, _block_size)) {
             // Computing the mapping from compressed values to original values
             _sorted = a;
             std::sort(_sorted.begin(), _sorted.end());
-- 
2.43.0


From 4a411de459e7ed0052f2c862d56a1ec170200ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:06 +0000
Subject: [PATCH 050/183] fix: SlopeTrick::lines did not compile

---
 library/datastructure/slope_trick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/slope_trick.hpp b/library/datastructure/slope_trick.hpp
index 0d1a211..90d702e 100644
--- a/library/datastructure/slope_trick.hpp
+++ b/library/datastructure/slope_trick.hpp
@@ -83,7 +83,7 @@ class SlopeTrick {
 
         std::tuple<std::vector<T>, T, std::vector<T>> lines() {
             struct seq_getter_dsc : public pq_dsc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_dsc::c; } };
-            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_asc::c; } };
+            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_asc& pq) { return pq.*&seq_getter_asc::c; } };
             std::vector<T> neg = seq_getter_dsc::get(l);
             std::vector<T> pos = seq_getter_asc::get(r);
             std::sort(neg.begin(), neg.end());
-- 
2.43.0


From 701ff8678bb90b7d2908b3fb380b5840799f61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:55 +0000
Subject: [PATCH 051/183] fix: MonotonicCHT: floating-point slopes and queries
 below zero tripped assertions (numeric_limits::min used as lowest)

---
 library/datastructure/monotonic_convex_hull_trick.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/monotonic_convex_hull_trick.hpp b/library/datastructure/monotonic_convex_hull_trick.hpp
index 3f067d4..ffd9ad6 100644
--- a/library/datastructure/monotonic_convex_hull_trick.hpp
+++ b/library/datastructure/monotonic_convex_hull_trick.hpp
@@ -25,7 +25,7 @@ namespace suisen {
         struct query_impl {};
         template <typename Dummy>
         struct query_impl<inc_query_tag, Dummy> {
-            value_type prev_x = std::numeric_limits<value_type>::min();
+            value_type prev_x = std::numeric_limits<value_type>::lowest();
             value_type operator()(MonotonicCHT* ptr, value_type x) {
                 assert(x >= prev_x);
                 prev_x = x;
@@ -92,7 +92,7 @@ namespace suisen {
         }
     private:
         std::deque<std::pair<value_type, value_type>> lines;
-        value_type max_slope = std::numeric_limits<value_type>::min();
+        value_type max_slope = std::numeric_limits<value_type>::lowest();
         value_type min_slope = std::numeric_limits<value_type>::max();
         query_impl<query_tag> _query{};
 
-- 
2.43.0


From 0e8eb8c1f90f3ff8392c447abc2b29628276e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:37 +0000
Subject: [PATCH 052/183] fix: LiChaoSegmentTree::add_line missed negative
 coordinates for floating-point types

---
 library/datastructure/segment_tree/li_chao_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/li_chao_segment_tree.hpp b/library/datastructure/segment_tree/li_chao_segment_tree.hpp
index a253288..2808621 100644
--- a/library/datastructure/segment_tree/li_chao_segment_tree.hpp
+++ b/library/datastructure/segment_tree/li_chao_segment_tree.hpp
@@ -51,7 +51,7 @@ namespace suisen {
 
         // Add ax+b for x in (-infty, infty)
         void add_line(T a, T b) {
-            add_segment(std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), a, b);
+            add_segment(std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), a, b);
         }
 
         /**
-- 
2.43.0


From 0ae45afc366181daddc738114bf58131b2c68ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:19 +0000
Subject: [PATCH 053/183] fix: ZDD::max_len_item dropped the top element when
 the 0-branch is empty

---
 library/datastructure/ZDD.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/ZDD.hpp b/library/datastructure/ZDD.hpp
index dc6f27d..e59a490 100644
--- a/library/datastructure/ZDD.hpp
+++ b/library/datastructure/ZDD.hpp
@@ -262,8 +262,8 @@ namespace suisen {
 
             auto res0 = max_len_item(f[0]);
             auto res1 = max_len_item(f[1]);
+            if (res1.has_value()) res1->push_back(f.top());
             if (res0.has_value() and res1.has_value()) {
-                res1->push_back(f.top());
                 return register_result(cache, res0->size() > res1->size() ? res0 : res1, f.id);
             } else if (res0.has_value()) {
                 return register_result(cache, res0, f.id);
-- 
2.43.0


From d3f1d2e6a1c5a23ee5f3b49b4a7b3ff57ab154a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:19 +0000
Subject: [PATCH 054/183] fix: PermutationTree: construction from an empty
 permutation

---
 library/datastructure/permutation_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index 9209a59..c592de5 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -164,6 +164,7 @@ namespace suisen {
 
         static PermutationTree build(const std::vector<int>& p) {
             const int n = p.size();
+            if (n == 0) return PermutationTree();
             std::vector<std::vector<int>> sel_l = left_strong_intervals(p);
             std::vector<std::vector<int>> sel_r = right_strong_intervals(p);
 
-- 
2.43.0


From d62cf91a5df6349ee09e977f1cbf93dd000b9ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:14 +0000
Subject: [PATCH 055/183] fix: PermutationTree: building touched popped stack
 entries out of bounds

---
 library/datastructure/permutation_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index c592de5..1f5fc36 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -79,8 +79,8 @@ namespace suisen {
 
             auto erase = [&](list_node_pointer node) -> list_node_pointer {
                 list_node_pointer nxt = node->nxt, prv = node->prv;
-                if (list_node_pointer& nl = max_val[node->max_idx].second; node == nl) nl = nxt and nxt->max_idx == node->max_idx ? nxt : nullptr;
-                if (list_node_pointer& nl = min_val[node->min_idx].second; node == nl) nl = nxt and nxt->min_idx == node->min_idx ? nxt : nullptr;
+                if (node->max_idx < int(max_val.size())) if (list_node_pointer& nl = max_val[node->max_idx].second; node == nl) nl = nxt and nxt->max_idx == node->max_idx ? nxt : nullptr;
+                if (node->min_idx < int(min_val.size())) if (list_node_pointer& nl = min_val[node->min_idx].second; node == nl) nl = nxt and nxt->min_idx == node->min_idx ? nxt : nullptr;
                 if (nxt) nxt->prv = prv, nxt->delta += node->delta;
                 if (prv) prv->nxt = nxt;
                 delete node;
-- 
2.43.0


From 6c5411cec2fbccd3c1122402917a20cf78d2d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:37 +0000
Subject: [PATCH 056/183] fix: AuxiliaryTree::build reads past the end for an
 empty vertex set

---
 library/tree/auxiliary_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/tree/auxiliary_tree.hpp b/library/tree/auxiliary_tree.hpp
index 708ce2d..34f5e23 100644
--- a/library/tree/auxiliary_tree.hpp
+++ b/library/tree/auxiliary_tree.hpp
@@ -17,6 +17,7 @@ namespace suisen {
             const int k = vs.size();
             for (int v : _upd) _aux[v].clear();
             _upd.clear();
+            if (k == 0) return;
 
             std::sort(vs.begin(), vs.end(), [this](int i, int j) { return _hld.get_visit_time(i) < _hld.get_visit_time(j); });
 
-- 
2.43.0


From 1d78db3582edeb6a4d34d623ffe5034c27a21e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:19 +0000
Subject: [PATCH 057/183] fix: RootedTreeClassifier::is_isomorphic compared the
 wrong ids and read past the end of the centroid list

---
 library/tree/tree_isomorphism_classification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/tree/tree_isomorphism_classification.hpp b/library/tree/tree_isomorphism_classification.hpp
index 3fde37e..118918a 100644
--- a/library/tree/tree_isomorphism_classification.hpp
+++ b/library/tree/tree_isomorphism_classification.hpp
@@ -211,7 +211,7 @@ namespace suisen {
                 id21 = id_new_par;
             }
             if (id11 == ids20[cs2[0]]) return std::pair{ cs1[1], cs2[0] };
-            if (ids20[cs2[1]] == id21) return std::pair{ cs1[0], cs2[1] };
+            if (ids10[cs1[0]] == id21) return std::pair{ cs1[0], cs2[1] };
             if (id11 == id21) return std::pair{ cs1[1], cs2[1] };
             return std::nullopt;
         }
-- 
2.43.0


From 03a7a4e6cce0aa49b4d054d246e603ba103aa540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:01 +0000
Subject: [PATCH 058/183] fix: Graph::shrink_to_fit and dfs_tree dereference
 the moved-from or destroyed source of a copied graph

---
 library/graph/csr_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/graph/csr_graph.hpp b/library/graph/csr_graph.hpp
index 2ab74e7..55a39a8 100644
--- a/library/graph/csr_graph.hpp
+++ b/library/graph/csr_graph.hpp
@@ -210,7 +210,7 @@ namespace suisen {
             auto it = new_edges.begin();
             for (int i = 0; i < _n; ++i) {
                 int nl = it - new_edges.begin();
-                it = std::move(_adj[i].begin(), _adj[i].end(), it);
+                it = std::move((*this)[i].begin(), (*this)[i].end(), it);
                 _adj[i]._offset = nl;
                 _adj[i]._cap = _adj[i]._siz;
             }
@@ -258,7 +258,7 @@ namespace suisen {
                         *pst_it++ = cur;
                         cur = par[cur];
                     } else {
-                        const auto &e = _adj[cur][eid[cur]];
+                        const auto &e = (*this)[cur][eid[cur]];
                         weight_type_or_1 w = get_weight(e);
                         int nxt = e;
                         if (par[nxt] == -2) {
-- 
2.43.0


From 2c37682063287dfdd97cdef057f6db748d572614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:01 +0000
Subject: [PATCH 059/183] fix: FunctionalGraph::kth_iterate overflows for k
 close to 2^63

---
 library/graph/functional_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/functional_graph.hpp b/library/graph/functional_graph.hpp
index fbcf73d..981abfb 100644
--- a/library/graph/functional_graph.hpp
+++ b/library/graph/functional_graph.hpp
@@ -212,7 +212,7 @@ namespace suisen {
                     const int s = cycle[i];
                     seen[s] = true;
                     for (const auto& [rem, res_index] : qs[s]) {
-                        res[res_index] = cycle[(i + rem) % len];
+                        res[res_index] = cycle[(i + rem % len) % len];
                     }
                 }
             }
-- 
2.43.0


From d9646ceb8695e1963b2efc2af2b1f0cd43a62ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:11 +0000
Subject: [PATCH 060/183] fix: LowLink (and the components built on it) ignore
 edges added after the first build() when build() is called again

---
 library/graph/biconnected_components.hpp        | 1 +
 library/graph/low_link.hpp                      | 6 ++++++
 library/graph/two_edge_connected_components.hpp | 1 +
 3 files changed, 8 insertions(+)

diff --git a/library/graph/biconnected_components.hpp b/library/graph/biconnected_components.hpp
index ee3d5e9..80f1209 100644
--- a/library/graph/biconnected_components.hpp
+++ b/library/graph/biconnected_components.hpp
@@ -110,6 +110,7 @@ namespace suisen {
             _edge_comp_num = 0;
             _edge_comp_id.assign(_m, -1);
             _used.assign(_n, false);
+            _isolated_vertices.clear();
             for (int i = 0; i < _n; ++i) if (not _used[i]) {
                 dfs(i, -1);
                 if (_g[i].empty()) _isolated_vertices.push_back(i);
diff --git a/library/graph/low_link.hpp b/library/graph/low_link.hpp
index cc2b4e6..57a2dda 100644
--- a/library/graph/low_link.hpp
+++ b/library/graph/low_link.hpp
@@ -151,6 +151,12 @@ namespace suisen {
         }
 
         void dfs_for_all_connected_components() {
+            // reset the results of the previous build
+            _conn_comp_num = 0;
+            _bridges.clear();
+            _articulation_points.clear();
+            std::fill(_pre_order.begin(), _pre_order.end(), -1);
+            std::fill(_par.begin(), _par.end(), -1);
             for (int i = 0, ord = 0; i < _n; ++i) if (_pre_order[i] < 0) {
                 dfs(i, -1, ord);
                 ++_conn_comp_num;
diff --git a/library/graph/two_edge_connected_components.hpp b/library/graph/two_edge_connected_components.hpp
index 01bde25..83e1595 100644
--- a/library/graph/two_edge_connected_components.hpp
+++ b/library/graph/two_edge_connected_components.hpp
@@ -66,6 +66,7 @@ namespace suisen {
         }
         void dfs_for_all_connected_components() {
             _comp_num = 0;
+            std::fill(_comp_id.begin(), _comp_id.end(), -1);
             for (int i = 0; i < _n; ++i) {
                 if (_comp_id[i] < 0) dfs(i, -1);
             }
-- 
2.43.0


From 7146d0835ff4afc5c6059c8fdfe7c7d378e0b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:11 +0000
Subject: [PATCH 061/183] fix: eulerian_trail leaves its auxiliary edge in the
 graph when there is no trail

---
 library/graph/directed_eulerian_graph.hpp   | 6 +++---
 library/graph/undirected_eulerian_graph.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/graph/directed_eulerian_graph.hpp b/library/graph/directed_eulerian_graph.hpp
index 74714e0..da06f0d 100644
--- a/library/graph/directed_eulerian_graph.hpp
+++ b/library/graph/directed_eulerian_graph.hpp
@@ -63,12 +63,12 @@ namespace suisen {
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
             add_edge(t, s);
             auto opt_res = eulerian_circuit(s);
-            if (not opt_res) return std::nullopt;
-            auto &res = *opt_res;
-            res.pop_back();
             // remove edge (t, s)
             g[t].pop_back();
             --in_deg[s];
+            if (not opt_res) return std::nullopt;
+            auto &res = *opt_res;
+            res.pop_back();
             if (res.back() == t) return res;
             auto is_ts_edge = [&](int u, int v) {
                 return u == t and v == s;
diff --git a/library/graph/undirected_eulerian_graph.hpp b/library/graph/undirected_eulerian_graph.hpp
index d4e691b..f16b5b8 100644
--- a/library/graph/undirected_eulerian_graph.hpp
+++ b/library/graph/undirected_eulerian_graph.hpp
@@ -60,12 +60,12 @@ namespace suisen {
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
             add_edge(s, t);
             auto opt_res = eulerian_circuit(s);
-            if (not opt_res) return std::nullopt;
-            auto &res = *opt_res;
-            res.pop_back();
             // remove edge (s, t)
             g[s].pop_back(), inv[s].pop_back();
             g[t].pop_back(), inv[t].pop_back();
+            if (not opt_res) return std::nullopt;
+            auto &res = *opt_res;
+            res.pop_back();
             if (res.back() == t) return res;
             auto is_st_edge = [&](int u, int v) {
                 return (u == s and v == t) or (u == t and v == s);
-- 
2.43.0


From 21b28051136177d34de968010cfc0b87d16ad6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:07 +0000
Subject: [PATCH 062/183] fix: BipartiteMatching::min_edge_cover sizes the
 right-side flags by the right side

---
 library/graph/bipartite_matching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/bipartite_matching.hpp b/library/graph/bipartite_matching.hpp
index ba7cd72..c8d4fdd 100644
--- a/library/graph/bipartite_matching.hpp
+++ b/library/graph/bipartite_matching.hpp
@@ -107,7 +107,7 @@ namespace suisen {
 
         std::vector<std::pair<int, int>> min_edge_cover() {
             auto res = max_matching();
-            std::vector<bool> vl(_n, false), vr(_n, false);
+            std::vector<bool> vl(_n, false), vr(_m, false);
             for (const auto& [u, v] : res) vl[u] = vr[v] = true;
             for (int u = 0; u < _n; ++u) for (int v : _g[u]) if (not (vl[u] and vr[v])) {
                 vl[u] = vr[v] = true;
-- 
2.43.0


From 2a4e8fc8b316e51ce51034f2923420c4709fb648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:07 +0000
Subject: [PATCH 063/183] fix: BipartiteMatching::solve after adding edges to a
 solved instance counts the kept matching

---
 library/graph/bipartite_matching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/bipartite_matching.hpp b/library/graph/bipartite_matching.hpp
index c8d4fdd..55424f6 100644
--- a/library/graph/bipartite_matching.hpp
+++ b/library/graph/bipartite_matching.hpp
@@ -90,7 +90,7 @@ namespace suisen {
                 }
                 return level[_n + r] = _n + _m, false;
             };
-            for (_f = 0; bfs();) {
+            for (_f = _n - std::count(_to_r.begin(), _to_r.end(), ABSENT); bfs();) {
                 std::fill(iter.begin(), iter.end(), 0);
                 for (int j = 0; j < _m; ++j) if (_to_l[j] == ABSENT) _f += dfs(dfs, j);
             }
-- 
2.43.0


From bb8393cfe4cea8880d48abebc8355e81b83c0a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:07 +0000
Subject: [PATCH 064/183] fix: MinCostFlow::add_edge pairs a self-loop with its
 reverse edge

---
 library/graph/min_cost_flow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index d5624c6..4b2864c 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -24,7 +24,7 @@ class MinCostFlow {
         int add_edge(int u, int v, Cap cap, Cost cost) {
             int edge_id = edges.size();
             edges.emplace_back(u, g[u].size());
-            g[u].push_back({ v, cap,  cost, int(g[v].size())     });
+            g[u].push_back({ v, cap,  cost, int(g[v].size()) + (u == v) });
             g[v].push_back({ u,   0, -cost, int(g[u].size()) - 1 });
             return edge_id;
         }
-- 
2.43.0


From b19305cde881179672dc46bfaa2e8c87a2fe7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:11 +0000
Subject: [PATCH 065/183] fix: MinCostFlow: INF_FLOW has the capacity type (was
 truncated when Cost is narrower than Cap)

---
 library/graph/min_cost_flow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index 4b2864c..051c39b 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -78,7 +78,7 @@ class MinCostFlow {
 
     private:
         static constexpr Cost INF_COST = std::numeric_limits<Cost>::max() / 2;
-        static constexpr Cost INF_FLOW = std::numeric_limits<Cap>::max() / 2;
+        static constexpr Cap INF_FLOW = std::numeric_limits<Cap>::max() / 2;
     
         int n;
         std::vector<std::vector<InternalEdge>> g;
-- 
2.43.0


From 369f9cf43ef924aedac104d36f8beda627ab805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:57 +0000
Subject: [PATCH 066/183] fix: maximum_clique puts no self-loops into the
 complement graph

---
 library/graph/maximum_clique.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/maximum_clique.hpp b/library/graph/maximum_clique.hpp
index 2f6dbc1..1e73661 100644
--- a/library/graph/maximum_clique.hpp
+++ b/library/graph/maximum_clique.hpp
@@ -10,7 +10,7 @@ namespace suisen {
         for (int i = 0; i < n; ++i) {
             std::vector<int8_t> adj(n, false);
             for (int j : g[i]) adj[j] = true;
-            for (int j = 0; j < n; ++j) if (not adj[j]) h[i].push_back(j);
+            for (int j = 0; j < n; ++j) if (j != i and not adj[j]) h[i].push_back(j);
         }
         return maximum_independent_set(h);
     }
-- 
2.43.0


From 999250251b22e087be0374af57f48ce50c5b1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:57 +0000
Subject: [PATCH 067/183] fix: TreeDecompositionTW2::decomp of the empty graph
 does not throw

---
 library/graph/tree_decomposition_tw2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/tree_decomposition_tw2.hpp b/library/graph/tree_decomposition_tw2.hpp
index fdf51ed..ea9c012 100644
--- a/library/graph/tree_decomposition_tw2.hpp
+++ b/library/graph/tree_decomposition_tw2.hpp
@@ -50,7 +50,7 @@ namespace suisen {
 
             std::vector<int> roots;
             std::vector<std::pair<int, int>> edges;
-            edges.reserve(_n - 1);
+            edges.reserve(_n);
             std::vector<std::vector<int>> bag(_n);
             std::vector<std::vector<int>> link(_n);
 
-- 
2.43.0


From a30bf8e0dd27caf3194211ebc4056986460d74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:57 +0000
Subject: [PATCH 068/183] fix: manhattan_minimum_distances gives 0 to every one
 of several coinciding points

---
 library/graph/manhattan_minimum_distances.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/library/graph/manhattan_minimum_distances.hpp b/library/graph/manhattan_minimum_distances.hpp
index 4cf451d..4547179 100644
--- a/library/graph/manhattan_minimum_distances.hpp
+++ b/library/graph/manhattan_minimum_distances.hpp
@@ -69,6 +69,12 @@ namespace suisen {
             for (auto& [_, y] : points) y = -y;
         }
 
+        // coinciding points: in every sweep the first of them sees none of the others
+        std::sort(p.begin(), p.end(), [&points](int i, int j) { return points[i] < points[j]; });
+        for (int k = 0; k + 1 < n; ++k) {
+            if (points[p[k]] == points[p[k + 1]]) res[p[k]] = res[p[k + 1]] = 0;
+        }
+
         return res;
     }
 } // namespace suisen
-- 
2.43.0


From 273041d15a69ac3107f52b8f87d4645eb422614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:23 +0000
Subject: [PATCH 069/183] fix: morris_pratt.hpp compiles without a preceding
 using namespace std

---
 library/string/morris_pratt.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/string/morris_pratt.hpp b/library/string/morris_pratt.hpp
index 32b65cb..0a77904 100644
--- a/library/string/morris_pratt.hpp
+++ b/library/string/morris_pratt.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_MORRIS_PRATT
 #define SUISEN_MORRIS_PRATT
 
+#include <iterator>
 #include <string>
 #include <vector>
 
@@ -48,7 +49,7 @@ namespace suisen {
         struct MatcherMP {
             MatcherMP() = default;
             MatcherMP(const RandomAccessibleContainer &s) : s(s), mp(morris_pratt(s)) {}
-            vector<int> operator()(const RandomAccessibleContainer &t) const {
+            std::vector<int> operator()(const RandomAccessibleContainer &t) const {
                 const int n = s.size(), m = t.size();
                 std::vector<int> res;
                 for (int i = 0, j = 0; i < m; ++i) {
@@ -57,7 +58,7 @@ namespace suisen {
                 }
                 return res;
             }
-            vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
+            std::vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
                 return (*this)(t);
             }
         private:
-- 
2.43.0


From 24c297c48cebe66d233ab8ae0b8f93a1d01bc5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:23 +0000
Subject: [PATCH 070/183] fix: SubstringSet iterators (and find) can be
 dereferenced

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index 2bdf394..dccb9b8 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -119,7 +119,7 @@ class SubstringSet {
             public:
                 SubstringSetIterator(const SubstringSet *st, size_type k) : st(st), k(k) {}
 
-                value_type operator*() const { return st->kth_substring(k); }
+                value_type operator*() const { return st->kth_element(k); }
 
                 auto& operator=(const SubstringSetIterator& other) {
                     st = other.st;
-- 
2.43.0


From d6def6c774c51ab56eea2e08ce00cbb2f69041fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 071/183] fix: DynamicRollingHash::set compiles (it called
 update_value with a value instead of a function)

---
 library/string/dynamic_rolling_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/dynamic_rolling_hash.hpp b/library/string/dynamic_rolling_hash.hpp
index 3fed14b..b98c6ef 100644
--- a/library/string/dynamic_rolling_hash.hpp
+++ b/library/string/dynamic_rolling_hash.hpp
@@ -126,7 +126,7 @@ namespace suisen {
 
         template <typename T>
         void set(size_t k, const T& val) {
-            _seq = node::update_value(_seq, k, val);
+            _seq = node::set(_seq, k, val);
         }
         template <typename T>
         void insert(size_t k, const T& val) {
-- 
2.43.0


From 3a4905b6724f5e6337ce7cc167c25ebd6674b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 072/183] fix: AhoCorasick can be rebuilt after adding patterns

---
 library/string/aho_corasick.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/string/aho_corasick.hpp b/library/string/aho_corasick.hpp
index bdf23cf..b5c251e 100644
--- a/library/string/aho_corasick.hpp
+++ b/library/string/aho_corasick.hpp
@@ -28,8 +28,8 @@ namespace suisen {
         void build() {
             _built = true;
             const int n = _next.size();
-            _failure.resize(n, 0);
-            _count.resize(n, 0);
+            _failure.assign(n, 0);
+            _count.assign(n, 0);
             for (int mark : _marks) ++_count[mark];
             std::deque<int> dq{ 0 };
             while (dq.size()) {
-- 
2.43.0


From 5c7c15b48c980fe6c4f345662417cf5cec0352d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 073/183] fix: MatcherMP does not read past the pattern after a
 match

---
 library/string/morris_pratt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/morris_pratt.hpp b/library/string/morris_pratt.hpp
index 0a77904..6c9ebda 100644
--- a/library/string/morris_pratt.hpp
+++ b/library/string/morris_pratt.hpp
@@ -54,7 +54,7 @@ namespace suisen {
                 std::vector<int> res;
                 for (int i = 0, j = 0; i < m; ++i) {
                     while (j >= 0 and s[j] != t[i]) j = mp[j];
-                    if (++j == n) res.push_back(i - n + 1);
+                    if (++j == n) res.push_back(i - n + 1), j = mp[j];
                 }
                 return res;
             }
-- 
2.43.0


From ae3a65ee7b08fec1b41712f0f7250da0c68f1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 074/183] fix: PalindromicTree::clear drops the links of the
 two roots

---
 library/string/palindromic_tree.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index ff459b1..9831a62 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -171,6 +171,13 @@ namespace suisen {
                     _nodes.clear();
                 } else {
                     _nodes.erase(_nodes.begin() + 2, _nodes.end());
+                    for (auto& root : _nodes) {
+                        if constexpr (is_map or is_vector) {
+                            root._children.clear();
+                        } else {
+                            std::fill(root._children.begin(), root._children.end(), NODE_NULL);
+                        }
+                    }
                 }
             }
 
-- 
2.43.0


From 6bd5a6e7389dab155100360b26dcbeb27252db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 075/183] fix: PalindromicTreeArr/Vec store node ids as int,
 not as the character type

---
 library/string/palindromic_tree.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index 9831a62..8765b07 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -188,8 +188,8 @@ namespace suisen {
 
         private:
             static constexpr bool is_map = std::is_same_v<std::map<value_type, int>, children_container_type>;
-            static constexpr bool is_vector = std::is_same_v<std::vector<value_type>, children_container_type>;
-            static constexpr bool is_array = std::is_same_v<std::array<value_type, std::tuple_size_v<children_container_type>>, children_container_type>;
+            static constexpr bool is_vector = std::is_same_v<std::vector<int>, children_container_type>;
+            static constexpr bool is_array = std::is_same_v<std::array<int, std::tuple_size_v<children_container_type>>, children_container_type>;
 
             int _active_index;
             container_type _seq;
@@ -224,14 +224,14 @@ namespace suisen {
     };
 
     template <typename T, typename Sequence = std::vector<T>>
-    struct PalindromicTreeVec : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<T>> {
-        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<T>>;
+    struct PalindromicTreeVec : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<int>> {
+        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<int>>;
         using base_type::base_type;
     };
 
     template <typename T, std::size_t N, typename Sequence = std::vector<T>>
-    struct PalindromicTreeArr : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<T, N>> {
-        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<T, N>>;
+    struct PalindromicTreeArr : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<int, N>> {
+        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<int, N>>;
         using base_type::base_type;
     };
 } // namespace suisen
-- 
2.43.0


From c23c6a057653c6baa943a91dfe1f248f26c1b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 076/183] fix: RollingHashField::set_bases drops the cached
 powers of the old bases

---
 library/string/rolling_hash_field.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/string/rolling_hash_field.hpp b/library/string/rolling_hash_field.hpp
index ffa6b04..f431e18 100644
--- a/library/string/rolling_hash_field.hpp
+++ b/library/string/rolling_hash_field.hpp
@@ -50,6 +50,7 @@ namespace suisen {
 
         static void set_bases(const std::array<T, base_num>& new_bases) {
             bases = new_bases;
+            for (auto& pow : pows) pow.clear();
             already_set_bases = true;
         }
 
-- 
2.43.0


From 758e433a88775bdfd816c8f67038443f1154a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 077/183] fix: SubstringSet::build can be called again

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index dccb9b8..3fb29d5 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -26,7 +26,7 @@ class SubstringSet {
         // build set of all substrings in `s`
         void build(const value_type &s) {
             sa = SuffixAutomaton(s);
-            dp.resize(sa.nodes.size(), size_type(1));
+            dp.assign(sa.nodes.size(), size_type(1));
             for (const int u : sa.topological_order(/* reversed = */true)) {
                 for (const auto &p : sa.nodes[u].nxt) dp[u] += dp[p.second];
             }
-- 
2.43.0


From 10281b407b193f3c86a146a4e4eebfaf68b1baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 078/183] fix: TreeDecompositionTW2 handles parallel edges

---
 library/graph/tree_decomposition_tw2.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/graph/tree_decomposition_tw2.hpp b/library/graph/tree_decomposition_tw2.hpp
index ea9c012..5f54bce 100644
--- a/library/graph/tree_decomposition_tw2.hpp
+++ b/library/graph/tree_decomposition_tw2.hpp
@@ -32,8 +32,11 @@ namespace suisen {
 
         std::optional<std::vector<DecompNode>> decomp() const {
             std::vector<std::vector<std::pair<int, int>>> g(_n);
-            for (auto [u, v] : _edges) if (u != v) {
-                if (u > v) std::swap(u, v);
+            auto simple_edges = _edges;
+            for (auto& [u, v] : simple_edges) if (u > v) std::swap(u, v);
+            std::sort(simple_edges.begin(), simple_edges.end());
+            simple_edges.erase(std::unique(simple_edges.begin(), simple_edges.end()), simple_edges.end());
+            for (auto [u, v] : simple_edges) if (u != v) {
                 const int du = g[u].size(), dv = g[v].size();
                 g[u].emplace_back(v, dv);
                 g[v].emplace_back(u, du);
-- 
2.43.0


From 6d95422939d0880a999651e5784f36d8f7de5687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:57 +0000
Subject: [PATCH 079/183] fix: Montgomery arithmetic for moduli at least half
 the word size, and subtraction (is_prime/factorize wrong for n >= 2^63)

---
 library/number/montogomery.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/library/number/montogomery.hpp b/library/number/montogomery.hpp
index 7aa7923..fbcb00d 100644
--- a/library/number/montogomery.hpp
+++ b/library/number/montogomery.hpp
@@ -48,7 +48,10 @@ namespace suisen {
                 //  => (T + m * N) / R is an integer.
                 //  => t * R = T + m * N = T (mod N)
                 //  => t = T R^(-1) (mod N)
-                DInt t = divR(T + m * N);
+                // Note:
+                //  T + m * N may not fit in DInt if N >= R / 2. Since T + m * N = 0 (mod R),
+                //  there is a carry from the lower half if and only if T != 0 (mod R).
+                DInt t = static_cast<DInt>(divR(T)) + divR(m * N) + (modR(T) != 0);
 
                 // Note:
                 //  1. 0 <= T < RN
@@ -59,10 +62,10 @@ namespace suisen {
             }
 
             constexpr Int add(Int A, Int B) const {
-                return (A += B) >= N ? A - N : A;
+                return A >= N - B ? A - (N - B) : A + B;
             }
             constexpr Int sub(Int A, Int B) const {
-                return (A -= B) < 0 ? A + N : A;
+                return A < B ? A + (N - B) : A - B;
             }
             constexpr Int mul(Int A, Int B) const {
                 return reduce(static_cast<DInt>(A) * B);
-- 
2.43.0


From 763a5c22a528b4d3951bccbc34cccdf63c4cdde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:36 +0000
Subject: [PATCH 080/183] fix: factorize(int) overflowed b*b and ran far beyond
 sqrt(n) for n near 2^31

---
 library/number/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/util.hpp b/library/number/util.hpp
index a51258d..7751f72 100644
--- a/library/number/util.hpp
+++ b/library/number/util.hpp
@@ -58,7 +58,7 @@ namespace suisen {
             res.emplace_back(p, cnt);
             };
         for (int p : primes) f(p);
-        for (T b = next_prime; b * b <= n; b += period) {
+        for (T b = next_prime; b <= n / b; b += period) {
             for (int offset : s) f(b + offset);
         }
         if (n != 1) res.emplace_back(n, 1);
-- 
2.43.0


From b693010f8d25ffb589ae16bc3adb256104695c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 081/183] fix: BezoutEquation::solve divided by zero when b = 0

---
 library/number/bezout_equation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index 7e57bf2..d8ff47c 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -237,7 +237,7 @@ namespace suisen {
                     const long long cx = b / g, cy = -a / g;
                     z /= g;
                     __int128_t x0 = __int128_t(x) * z, y0 = __int128_t(y) * z;
-                    __int128_t k0 = -x0 / cx;
+                    __int128_t k0 = cx == 0 ? 0 : -x0 / cx;
                     return BezoutEquationSolution::make_linear(x0 + k0 * cx, cx, y0 + k0 * cy, cy);
                 }
             }
-- 
2.43.0


From ecec3792b8f91d32a34e27fe7cf523886e88942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 082/183] fix: prime_mod_sqrt for 64-bit primes with p - 1
 divisible by a large power of two

---
 library/number/mod_sqrt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/mod_sqrt.hpp b/library/number/mod_sqrt.hpp
index 743bc5f..4033c0b 100644
--- a/library/number/mod_sqrt.hpp
+++ b/library/number/mod_sqrt.hpp
@@ -42,7 +42,7 @@ namespace suisen {
             ++b;
         }
 
-        int tlz = __builtin_ctz(p - 1);
+        int tlz = __builtin_ctzll(p - 1);
         long long q = (p - 1) >> tlz;
 
         long long ia = inv_mod64(a, p);
@@ -55,7 +55,7 @@ namespace suisen {
                 return x;
             }
             long long e = mul_mod64(ia, x2, p);
-            if (pow_mod64(e, 1 << (tlz - shift), p) != 1) {
+            if (pow_mod64(e, 1LL << (tlz - shift), p) != 1) {
                 x = mul_mod64(x, b, p);
             }
             b = mul_mod64(b, b, p);
-- 
2.43.0


From 8b1acfc318925868a18660a1477ce664851e56e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 083/183] fix: composite_mod_sqrt of negative numbers

---
 library/number/mod_sqrt.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/number/mod_sqrt.hpp b/library/number/mod_sqrt.hpp
index 4033c0b..1c60f7f 100644
--- a/library/number/mod_sqrt.hpp
+++ b/library/number/mod_sqrt.hpp
@@ -69,7 +69,8 @@ namespace suisen {
             for (int i = 1; i <= q; ++i) {
                 pq[i] = pq[i - 1] * p;
             }
-            if ((a %= pq[q]) == 0) return 0;
+            if ((a %= pq[q]) < 0) a += pq[q];
+            if (a == 0) return 0;
 
             int b = 0;
             for (; a % p == 0; a /= p) {
-- 
2.43.0


From 7a2ae5dcfb1c234b200557067f220defc8303840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 084/183] fix: OrderMod::is_prime was true for prime powers
 (and primitive_root could return non-coprime numbers)

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 35a5348..d985b92 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -50,7 +50,7 @@ namespace suisen {
         OrderMod() = default;
         OrderMod(T m) : _mod(m) {
             auto factorized = fast_factorize::factorize<T>(_mod);
-            _is_prime = factorized.size() == 1;
+            _is_prime = factorized.size() == 1 and factorized.front().second == 1;
             _lambda = _carmichael(factorized);
             _phi = _totient(factorized);
             for (auto [p, q] : fast_factorize::factorize<T>(_lambda)) {
-- 
2.43.0


From 418f760731a8fe4029cd3a3608ee00d91ecadef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 085/183] fix: OrderMod::is_primitive_root used a 31-bit modint
 for moduli in [2^31, 2^32)

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index d985b92..8d2d9aa 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -61,7 +61,7 @@ namespace suisen {
         }
 
         bool is_primitive_root(U a) const {
-            if (_mod < 1ULL << 32) {
+            if (_mod < 1ULL << 31) {
                 using mint = atcoder::dynamic_modint<1000000000>;
                 U old_mod = mint::mod();
                 mint::set_mod(_mod);
-- 
2.43.0


From 7f1403fbe02c7d98c5f45e1e73a91b455b130d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 086/183] fix: discrete logarithm looped forever for moduli at
 least 2^30

---
 library/number/discrete_logarithm.hpp      | 2 +-
 library/number/fast_discrete_logarithm.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/discrete_logarithm.hpp b/library/number/discrete_logarithm.hpp
index 3fed267..83be154 100644
--- a/library/number/discrete_logarithm.hpp
+++ b/library/number/discrete_logarithm.hpp
@@ -9,7 +9,7 @@ namespace suisen {
     namespace internal::discrete_logarithm {
         int floor_log2(int m) {
             int res = 0;
-            while (1 << (res + 1) <= m) ++res;
+            while (1LL << (res + 1) <= m) ++res;
             return res;
         }
     }
diff --git a/library/number/fast_discrete_logarithm.hpp b/library/number/fast_discrete_logarithm.hpp
index 362edaa..bd7e2b2 100644
--- a/library/number/fast_discrete_logarithm.hpp
+++ b/library/number/fast_discrete_logarithm.hpp
@@ -355,7 +355,7 @@ namespace suisen::fast_discrete_logarithm {
 
             const int floor_log2_m = [m] {
                 int res = 0;
-                while (1 << (res + 1) <= m) ++res;
+                while (1LL << (res + 1) <= m) ++res;
                 return res;
             }();
 
-- 
2.43.0


From 7250de49ea93cd6e3fbbe4e9d40de8844faed22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:16 +0000
Subject: [PATCH 087/183] fix: safe_sqrt cached the modulus of a dynamic modint

---
 library/math/modint_extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/math/modint_extension.hpp b/library/math/modint_extension.hpp
index 3efc099..c9a550e 100644
--- a/library/math/modint_extension.hpp
+++ b/library/math/modint_extension.hpp
@@ -10,13 +10,13 @@
  */
 template <typename mint>
 std::optional<mint> safe_sqrt(mint a) {
-    static int p = mint::mod();
+    const int p = mint::mod();
     if (a == 0) return std::make_optional(0);
     if (p == 2) return std::make_optional(a);
     if (a.pow((p - 1) / 2) != 1) return std::nullopt;
     mint b = 1;
     while (b.pow((p - 1) / 2) == 1) ++b;
-    static int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
+    const int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
     mint x = a.pow((q + 1) / 2);
     b = b.pow(q);
     for (int shift = 2; x * x != a; ++shift) {
-- 
2.43.0


From 2e9831f516b6584f0caeab9b22b8a3b548b12dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:26 +0000
Subject: [PATCH 088/183] fix: factorial_number(permutation) called a member
 that does not exist (did not compile)

---
 library/number/factorial_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorial_number.hpp b/library/number/factorial_number.hpp
index 0d4ff69..501c7a0 100644
--- a/library/number/factorial_number.hpp
+++ b/library/number/factorial_number.hpp
@@ -23,7 +23,7 @@ namespace suisen {
             fenwick_tree_set st(_n, true);
             for (int i = 0; i < _n - 1; ++i) {
                 int v = perm[i];
-                _d[_n - 2 - i] = st.index_of(v);
+                _d[_n - 2 - i] = st.count_lt(v);
                 st.erase(v);
             }
         }
-- 
2.43.0


From 9f2b6b43ea9bd3d52ea3ca2aaa850301e9bc0409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:26 +0000
Subject: [PATCH 089/183] fix: sbt_node::move_down_left/right did not compile

---
 library/number/stern_brocot_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/stern_brocot_tree.hpp b/library/number/stern_brocot_tree.hpp
index c59bf2d..92a4d80 100644
--- a/library/number/stern_brocot_tree.hpp
+++ b/library/number/stern_brocot_tree.hpp
@@ -104,9 +104,9 @@ namespace suisen {
         }
 
         // move down k steps to the left
-        void move_down_left(Int k) { move(Left, k); }
+        void move_down_left(Int k) { move_down(Left, k); }
         // move down k steps to the right
-        void move_down_right(Int k) { move(Right, k); }
+        void move_down_right(Int k) { move_down(Right, k); }
         // move down k steps in the direction `dir`
         void move_down(sbt_arc dir, Int k) {
             assert(k >= 0);
-- 
2.43.0


From 2d6cfe3dbb6b18480353cea1722d93a352291a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:26 +0000
Subject: [PATCH 090/183] fix: Rational::compare returned the wrong order when
 integer parts agree

---
 library/number/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 8bedaea..6d68a08 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -41,14 +41,14 @@ struct Rational {
         if ((sgn_l ^ sgn_r) < 0) return sgn_l;
         T nl = std::abs(l.num), dl = l.den, nr = std::abs(r.num), dr = r.den;
         bool rev = sgn_l < 0;
-        for (; dl and dr; rev = -rev) {
+        for (; dl and dr; rev = not rev) {
             T ql = nl / dl, qr = nr / dr;
             if (ql != qr) return pow_m1((ql < qr) xor rev);
             T rl = nl % dl, rr = nr % dr;
             nl = dl, dl = rl;
             nr = dr, dr = rr;
         }
-        return dl or dr ? pow_m1((dr > 0) xor rev) : 0;
+        return dl or dr ? pow_m1((dl > 0) xor rev) : 0;
     }
     
     friend bool operator<(const Rational &l, const Rational &r) {
-- 
2.43.0


From d9a51759a92e769161d2db07a6f0d46fa5aae7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:26 +0000
Subject: [PATCH 091/183] fix: Rational::floor and ceil truncated towards zero

---
 library/number/rational.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 6d68a08..16bfe97 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RATIONAL
 #define SUISEN_RATIONAL
 
+#include <cassert>
 #include <cmath>
 #include <ostream>
 #include <numeric>
@@ -129,10 +130,10 @@ struct Rational {
     }
 
     T floor() const {
-        return num >= 0 ? num / den : -(-num / den);
+        return num / den - (num % den < 0);
     }
     T ceil() const {
-        return num >= 0 ? -(-num / den) : num / den;
+        return num / den + (num % den > 0);
     }
 
     static std::pair<Rational, Rational> approximate(long double target, T max_numerator, T max_denominator) {
-- 
2.43.0


From cfe8d3c7cff05c6e50a058ee24050a8a34ad1dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:45 +0000
Subject: [PATCH 092/183] fix: unsigned_bigint(unsigned long) and
 unsigned_bigint{0} used the vector constructors

---
 library/math/unsigned_bigint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 911de2c..49b70e1 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -194,7 +194,7 @@ namespace suisen {
             return out << v._to_string();
         }
     private:
-        using std::vector<int>::vector;
+        unsigned_bigint(const_iterator first, const_iterator last) : vector(first, last) {}
 
         void _check_leading_zeros() const {
             assert(this->empty() or this->back());
-- 
2.43.0


From 6b2fe2afd16acfb015f5a65ef12893e73f7371b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:46 +0000
Subject: [PATCH 093/183] fix: unsigned_bigint from a decimal string kept
 leading zero digits

---
 library/math/unsigned_bigint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 49b70e1..8bca994 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -39,6 +39,7 @@ namespace suisen {
                     v = v * 10 + d;
                 }
             }
+            _cut_leading_zeros();
         }
         unsigned_bigint(const char* s) : unsigned_bigint(std::string(s)) {}
 
-- 
2.43.0


From afb82c5c5750ca348609259170af7c5520a8a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:46 +0000
Subject: [PATCH 094/183] fix: bigint(minimum value of a signed type)
 overflowed

---
 library/math/bigint.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/math/bigint.hpp b/library/math/bigint.hpp
index b51778f..47a3ca1 100644
--- a/library/math/bigint.hpp
+++ b/library/math/bigint.hpp
@@ -16,7 +16,10 @@ namespace suisen {
             if constexpr (std::is_signed_v<T>) {
                 if (v < 0) {
                     _neg = true;
-                    v = -v;
+                    // -v is not representable if v is the minimum value
+                    _dat = unsigned_bigint(-(v + 1));
+                    ++_dat;
+                    return;
                 }
             }
             _dat = unsigned_bigint(v);
-- 
2.43.0


From a8afb1ce9c7c930033c2716bdfe2f01e3318534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:34 +0000
Subject: [PATCH 095/183] fix: unsigned_bigint division by a divisor of a power
 of the base (e.g. 5*10^n, n large) failed an assertion

---
 library/math/unsigned_bigint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 8bca994..e91c7af 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -435,7 +435,7 @@ namespace suisen {
                         carry = 0;
                     }
                 }
-                ++bc[k];
+                bc[k] = 1;
                 c *= bc;
                 c.erase(c.begin(), c.begin() + dB);
                 bc = b * c;
-- 
2.43.0


From 906af3c6ecee927ca1a02e6ea8ce74bb0e62aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:34 +0000
Subject: [PATCH 096/183] fix: the product of two zero big integers threw
 (convolution_naive of empty sequences)

---
 library/convolution/convolution_naive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/convolution/convolution_naive.hpp b/library/convolution/convolution_naive.hpp
index 7c3f049..8593bf0 100644
--- a/library/convolution/convolution_naive.hpp
+++ b/library/convolution/convolution_naive.hpp
@@ -7,6 +7,7 @@ namespace suisen::internal {
     template <typename T, typename R = T>
     std::vector<R> convolution_naive(const std::vector<T>& a, const std::vector<T>& b) {
         const int n = a.size(), m = b.size();
+        if (n == 0 or m == 0) return {};
         std::vector<R> c(n + m - 1);
         if (n < m) {
             for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) c[i + j] += R(a[i]) * b[j];
-- 
2.43.0


From 6e72141516625ea7f00c776ba3193138fdf31a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:04 +0000
Subject: [PATCH 097/183] fix: unsigned_bigint division compared partial
 remainders with leading zero digits

---
 library/math/unsigned_bigint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index e91c7af..2e85d57 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -398,6 +398,7 @@ namespace suisen {
                 }
                 if (i) {
                     r.insert(r.begin(), a[i - 1]);
+                    r._cut_leading_zeros();
                 }
             }
             std::reverse(q.begin(), q.end());
-- 
2.43.0


From 4dfea08fab3ce8a6ddaaf203df49efc53fd293f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:56 +0000
Subject: [PATCH 098/183] fix: ArrayMatrix division operators (A /= B, c / A)
 did not compile

---
 library/linear_algebra/array_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/linear_algebra/array_matrix.hpp b/library/linear_algebra/array_matrix.hpp
index 9e3092c..f07e37a 100644
--- a/library/linear_algebra/array_matrix.hpp
+++ b/library/linear_algebra/array_matrix.hpp
@@ -71,7 +71,7 @@ namespace suisen {
             for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) A[i][j] = _mul(A[i][j], val);
             return A;
         }
-        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= *B.inv(); }
+        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= B.inv(); }
         friend ArrayMatrix& operator/=(ArrayMatrix& A, const T& val) { return A *= _inv(val); }
 
         friend ArrayMatrix operator+(ArrayMatrix A, const ArrayMatrix& B) { A += B; return A; }
@@ -98,7 +98,7 @@ namespace suisen {
         }
         friend ArrayMatrix operator/(ArrayMatrix A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A * B.inv(); }
         friend ArrayMatrix operator/(ArrayMatrix A, const T& val) { A /= val; return A; }
-        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return A.inv() *= val; }
+        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return val * A.inv(); }
 
         ArrayMatrix pow(long long b) const {
             static_assert(is_square_v<>);
-- 
2.43.0


From ba4d5906eaf3eab795d3dec7e5b42fe1a24dc4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:58 +0000
Subject: [PATCH 099/183] fix: MatrixF2::rank read past the last row of
 matrices with full row rank

---
 library/linear_algebra/matrix_f2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/linear_algebra/matrix_f2.hpp b/library/linear_algebra/matrix_f2.hpp
index 1c568de..1069f1d 100644
--- a/library/linear_algebra/matrix_f2.hpp
+++ b/library/linear_algebra/matrix_f2.hpp
@@ -119,7 +119,7 @@ namespace suisen {
         std::size_t rank() const {
             MatrixF2 A = *this;
             std::size_t r = 0;
-            for (std::size_t j = 0; j < m; ++j) {
+            for (std::size_t j = 0; r < n and j < m; ++j) {
                 for (std::size_t i = r + 1; i < n; ++i) if (A[i][j]) {
                     std::swap(A[r], A[i]);
                     if (A[i][j]) A[i] ^= A[r];
-- 
2.43.0


From 2346081f79c4fed05f7804927b94e3526a390775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:58 +0000
Subject: [PATCH 100/183] fix: gaussian_elimination_f2 dropped free columns
 once the rank reached the number of rows

---
 library/linear_algebra/gaussian_elimination_f2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/linear_algebra/gaussian_elimination_f2.hpp b/library/linear_algebra/gaussian_elimination_f2.hpp
index 5ca8287..6c2ba2b 100644
--- a/library/linear_algebra/gaussian_elimination_f2.hpp
+++ b/library/linear_algebra/gaussian_elimination_f2.hpp
@@ -65,12 +65,12 @@ namespace suisen {
 
         std::vector<std::size_t> ones, zeros;
         std::size_t rank = 0;
-        for (std::size_t j = 0; rank < n and j < m; ++j) {
+        for (std::size_t j = 0; j < m; ++j) {
             for (std::size_t i = rank + 1; i < n; ++i) if (A[i][j]) {
                 std::swap(A[rank], A[i]);
                 if (A[i][j]) A[i] ^= A[rank];
             }
-            if (A[rank][j]) {
+            if (rank < n and A[rank][j]) {
                 for (std::size_t i = 0; i < rank; ++i) if (A[i][j]) A[i] ^= A[rank];
                 ++rank;
                 ones.push_back(j);
-- 
2.43.0


From 7e97fce682eff65f0259badd62a525b872b210a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:58 +0000
Subject: [PATCH 101/183] fix: SolutionSpace::normalized and operator& always
 failed an assertion

---
 library/linear_algebra/gaussian_elimination_f2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/linear_algebra/gaussian_elimination_f2.hpp b/library/linear_algebra/gaussian_elimination_f2.hpp
index 6c2ba2b..3e62ef1 100644
--- a/library/linear_algebra/gaussian_elimination_f2.hpp
+++ b/library/linear_algebra/gaussian_elimination_f2.hpp
@@ -15,8 +15,8 @@ namespace suisen {
 
         SolutionSpace normalized() {
             SolutionSpace res{ _solution };
-            res += *this;
             res._normalized = true;
+            res += *this;
             return res;
         }
         void normalize() {
@@ -44,6 +44,7 @@ namespace suisen {
             std::vector<std::pair<DynamicBitSet, DynamicBitSet>> basis;
             for (const DynamicBitSet& e : s._basis) basis.emplace_back(e, e);
             SolutionSpace res;
+            res._normalized = true;
             for (DynamicBitSet e : t._basis) {
                 DynamicBitSet s(e.size());
                 for (const auto& [v, t] : basis) if (DynamicBitSet w = e ^ v; w < e) e = std::move(w), s ^= t;
-- 
2.43.0


From 78dcaba2593d1671bedf0f9f53728e9bda2cd5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:41 +0000
Subject: [PATCH 102/183] fix: chirp_z_transform of a polynomial with fewer
 than 60 coefficients applied a twice (returned f(a^2 r^k))

---
 library/transform/chirp_z_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/transform/chirp_z_transform.hpp b/library/transform/chirp_z_transform.hpp
index a95a3ec..e4edef5 100644
--- a/library/transform/chirp_z_transform.hpp
+++ b/library/transform/chirp_z_transform.hpp
@@ -45,7 +45,7 @@ namespace suisen {
             for (int k = 1; k < m; ++k) g[k] += f[0];
             return g;
         }
-        if (n < 60) return internal::chirp_z_transform_naive(f, a, r, m);
+        if (n < 60) return internal::chirp_z_transform_naive<T>(f, 1, r, m);
         const T r_inv = r.inv();
 
         const int l = n + m - 1;
-- 
2.43.0


From 6764dd7cfa64167347a45b7b2acdb75bd7e4b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:41 +0000
Subject: [PATCH 103/183] fix: chirp_z_transform without an explicit
 convolution did not compile

---
 library/transform/chirp_z_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/transform/chirp_z_transform.hpp b/library/transform/chirp_z_transform.hpp
index e4edef5..8a86aa1 100644
--- a/library/transform/chirp_z_transform.hpp
+++ b/library/transform/chirp_z_transform.hpp
@@ -33,7 +33,7 @@ namespace suisen {
     /**
      * @brief Calculates f(ar^k) for k=0,...,m-1 in O(M(n+m-1)+n+m) time
      */
-    template <typename T, typename Convolution>
+    template <typename T, typename Convolution = decltype((internal::default_convolution))>
     std::vector<T> chirp_z_transform(std::vector<T> f, T a, T r, int m, Convolution&& convolution = internal::default_convolution) {
         const int n = f.size();
         std::vector<T> g(m);
-- 
2.43.0


From a62e37d810adde2b79cf1f266db57b0a587a6c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:22 +0000
Subject: [PATCH 104/183] fix: default-constructed (semi-)relaxed convolutions
 left the length uninitialised

---
 library/convolution/relaxed_convolution.hpp          | 2 +-
 library/convolution/semi_relaxed_convolution.hpp     | 2 +-
 library/convolution/semi_relaxed_convolution_ntt.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/convolution/relaxed_convolution.hpp b/library/convolution/relaxed_convolution.hpp
index 6aa4581..cdf7eae 100644
--- a/library/convolution/relaxed_convolution.hpp
+++ b/library/convolution/relaxed_convolution.hpp
@@ -40,7 +40,7 @@ namespace suisen {
 
     private:
         convolution_type _convolve = [](const polynomial_type&, const polynomial_type&) -> polynomial_type { assert(false); };
-        int _n;
+        int _n = 0;
         polynomial_type _f, _g, _h;
 
         polynomial_type range_convolve(int l1, int r1, int l2, int r2) {
diff --git a/library/convolution/semi_relaxed_convolution.hpp b/library/convolution/semi_relaxed_convolution.hpp
index 815dfe2..1b800d4 100644
--- a/library/convolution/semi_relaxed_convolution.hpp
+++ b/library/convolution/semi_relaxed_convolution.hpp
@@ -39,7 +39,7 @@ namespace suisen {
 
     private:
         convolution_type _convolve = [](const polynomial_type&, const polynomial_type&) -> polynomial_type { assert(false); };
-        int _n;
+        int _n = 0;
         polynomial_type _f, _g, _h;
 
         polynomial_type range_convolve(int l1, int r1, int l2, int r2) {
diff --git a/library/convolution/semi_relaxed_convolution_ntt.hpp b/library/convolution/semi_relaxed_convolution_ntt.hpp
index 15f832a..5da0e29 100644
--- a/library/convolution/semi_relaxed_convolution_ntt.hpp
+++ b/library/convolution/semi_relaxed_convolution_ntt.hpp
@@ -56,7 +56,7 @@ namespace suisen {
         }
 
     private:
-        int _n;
+        int _n = 0;
         std::vector<mint> _f, _g, _h;
 
         std::vector<std::vector<mint>> _f_fft;
-- 
2.43.0


From e612689d7beb2156b7bc933245ba003cc516922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:22 +0000
Subject: [PATCH 105/183] fix: multi_variate_convolution_circular failed an
 assertion for composite moduli congruent to 1 modulo every dimension

---
 library/convolution/multi_variate_convolution_circular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/convolution/multi_variate_convolution_circular.hpp b/library/convolution/multi_variate_convolution_circular.hpp
index bbbba27..ac0020b 100644
--- a/library/convolution/multi_variate_convolution_circular.hpp
+++ b/library/convolution/multi_variate_convolution_circular.hpp
@@ -87,7 +87,7 @@ namespace suisen {
 
             const int t = std::reduce(n.begin(), n.end(), 1, [](int x, int y) { return std::lcm(x, y); });
 
-            if ((mint::mod() - 1) % t == 0) {
+            if ((mint::mod() - 1) % t == 0 and miller_rabin::is_prime(mint::mod())) {
                 _mods = { mint::mod() };
             } else {
                 __int128_t prod = 1;
-- 
2.43.0


From c8fe17407dcdb1f27faa3366ac2c4214f5d39460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:54 +0000
Subject: [PATCH 106/183] fix: FPSNaive::safe_sqrt(n) wrote out of bounds when
 the square root vanishes modulo x^n

---
 library/polynomial/fps_naive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps_naive.hpp b/library/polynomial/fps_naive.hpp
index bf85b6b..ab2e8e5 100644
--- a/library/polynomial/fps_naive.hpp
+++ b/library/polynomial/fps_naive.hpp
@@ -232,6 +232,7 @@ namespace suisen {
             while (dl < size() and unsafe_get(dl) == value_type{ 0 }) ++dl;
             if (dl == size()) return FPSNaive(n, 0);
             if (dl & 1) return std::nullopt;
+            if (dl / 2 >= n) return FPSNaive(n, 0);
 
             const int m = n - dl / 2;
 
-- 
2.43.0


From 1f612dec60a60793be4791cb0858f139144e3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:54 +0000
Subject: [PATCH 107/183] fix: ArrayFPSNaive::sqrt read past the array for
 series with leading zero coefficients

---
 library/polynomial/array_fps_naive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/array_fps_naive.hpp b/library/polynomial/array_fps_naive.hpp
index cfd34e4..9802a8f 100644
--- a/library/polynomial/array_fps_naive.hpp
+++ b/library/polynomial/array_fps_naive.hpp
@@ -183,7 +183,7 @@ namespace suisen {
             g[bg] = ::sqrt((*this)[bf]);
             value_type inv_2g0 = ::inv(2 * g[bg]);
             for (int i = 1; i <= d; ++i) {
-                g[bg + i] = (*this)[bf + i];
+                g[bg + i] = bf + i <= DEG ? (*this)[bf + i] : value_type{ 0 };
                 for (int j = 1; j < i; ++j) g[bg + i] -= g[bg + j] * g[bg + i - j];
                 g[bg + i] *= inv_2g0;
             }
-- 
2.43.0


From 6755a22f3c3e26a09f7cf840f7c17dffd3fdb2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 108/183] fix: FPS::diff of the empty (zero) polynomial wrote
 out of bounds

---
 library/polynomial/fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 9568dfe..f18302e 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -179,6 +179,7 @@ namespace suisen {
         /* Other Operations */
 
         FPS& diff_inplace() {
+            if (this->empty()) return *this;
             const int n = size();
             for (int i = 1; i < n; ++i) (*this)[i - 1] = (*this)[i] * i;
             return (*this)[n - 1] = 0, *this;
-- 
2.43.0


From 0301091d91835a0f2c04f718f3cc5b8d13a8cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 109/183] fix: FPS::prod of no factors read the top of an empty
 queue

---
 library/polynomial/fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index f18302e..21587a1 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -293,6 +293,7 @@ namespace suisen {
         }
 
         static FPS prod(const std::vector<FPS>& fs) {
+            if (fs.empty()) return { 1 };
             auto comp = [](const FPS& f, const FPS& g) { return f.size() > g.size(); };
             std::priority_queue<FPS, std::vector<FPS>, decltype(comp)> pq{ comp };
             for (const auto& f : fs) pq.push(f);
-- 
2.43.0


From 25ebdeb0c1e5f7f7fefb1aa140f33963ff384d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 110/183] fix: safe_sqrt(n) threw when the square root of a
 dense series vanishes modulo x^n

---
 library/polynomial/formal_power_series.hpp | 1 +
 library/polynomial/fps.hpp                 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/library/polynomial/formal_power_series.hpp b/library/polynomial/formal_power_series.hpp
index b829524..f41f17b 100644
--- a/library/polynomial/formal_power_series.hpp
+++ b/library/polynomial/formal_power_series.hpp
@@ -325,6 +325,7 @@ namespace suisen {
             while (tlz < size() and (*this)[tlz] == 0) ++tlz;
             if (tlz == size()) return FormalPowerSeries(n, 0);
             if (tlz & 1) return std::nullopt;
+            if (tlz / 2 >= n) return FormalPowerSeries(n, 0);
             const int m = n - tlz / 2;
 
             FormalPowerSeries h(this->begin() + tlz, this->end());
diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 21587a1..15ba3e7 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -265,6 +265,7 @@ namespace suisen {
             while (tlz < size() and (*this)[tlz] == 0) ++tlz;
             if (tlz == size()) return FPS(n, 0);
             if (tlz & 1) return std::nullopt;
+            if (tlz / 2 >= n) return FPS(n, 0);
             const int m = n - tlz / 2;
 
             FPS h(this->begin() + tlz, this->end());
-- 
2.43.0


From 5f9d9cf9be3d09554f2b110c16fe90eedb9bbffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 111/183] fix: RationalFPS::sum of no terms read the top of an
 empty queue

---
 library/polynomial/rational_fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/rational_fps.hpp b/library/polynomial/rational_fps.hpp
index 20be22f..dae09a2 100644
--- a/library/polynomial/rational_fps.hpp
+++ b/library/polynomial/rational_fps.hpp
@@ -73,6 +73,7 @@ namespace suisen {
         }
 
         static RationalFPS<FPSType> sum(const std::vector<RationalFPS<FPSType>>& fs) {
+            if (fs.empty()) return {};
             auto comp = [](const RationalFPS<FPSType>& f, const RationalFPS<FPSType>& g) {
                 return f.den.size() > g.den.size();
             };
-- 
2.43.0


From c4177817fbf41753a1f4dcae731aec77b8b420d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:48 +0000
Subject: [PATCH 112/183] fix: polynomial_gcd and polynomial_inv did not
 compile (wrong return types)

---
 library/polynomial/polynomial_gcd.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/polynomial/polynomial_gcd.hpp b/library/polynomial/polynomial_gcd.hpp
index 857b1d3..bb0d3f1 100644
--- a/library/polynomial/polynomial_gcd.hpp
+++ b/library/polynomial/polynomial_gcd.hpp
@@ -87,15 +87,15 @@ namespace suisen {
     }
     // @return x s.t. ax=1 (mod m)
     template <typename Polynomial>
-    std::pair<Polynomial, Polynomial> polynomial_inv(const Polynomial &a, const Polynomial &m) {
+    Polynomial polynomial_inv(const Polynomial &a, const Polynomial &m) {
         auto [x, _, g] = polynomial_ext_gcd(a, m);
         assert(g == Polynomial{1});
         return x;
     }
     // @return gcd(a,b) (monic)
     template <typename Polynomial>
-    std::tuple<Polynomial, Polynomial, Polynomial> polynomial_gcd(const Polynomial &a, const Polynomial &b) {
-        return std::get<2>(ext_gcd(a, b));
+    Polynomial polynomial_gcd(const Polynomial &a, const Polynomial &b) {
+        return std::get<2>(polynomial_ext_gcd(a, b));
     }
 } // namespace suisen
 
-- 
2.43.0


From ff41d7f2e74de1bcee65b8fdef6a1b1e0667acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:48 +0000
Subject: [PATCH 113/183] fix: vec_sparse_fps.hpp only compiled after a global
 alias named mint

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index d0e622a..18fde2b 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -116,7 +116,7 @@ namespace suisen {
 
         static value_type bostan_mori(VecSparseFPS P, std::vector<value_type> Q, long long m) {
             for (; m; m >>= 1) {
-                std::vector<mint> mQ = Q;
+                std::vector<value_type> mQ = Q;
                 for (int i = 1; i < int(Q.size()); i += 2) mQ[i] = -mQ[i];
                 auto nP = P * mQ;
                 P.clear();
-- 
2.43.0


From 66bfd8f37090a2c5385c4a55b312561e5336f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:49 +0000
Subject: [PATCH 114/183] fix: unary minus and subtraction of VecSparseFPS did
 not compile

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index 18fde2b..1da5652 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -35,7 +35,7 @@ namespace suisen {
         VecSparseFPS operator-() const {
             VecSparseFPS res;
             for (const auto &[i, f] : _f) {
-                auto &back = res._f.emplace_back(i, {});
+                auto &back = res._f.emplace_back(i, std::vector<value_type>{});
                 for (const auto &v : f) back.second.push_back(-v);
             }
             return res;
-- 
2.43.0


From a16515b9a151df13b98d5f8634a7cd197d1ab3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:49 +0000
Subject: [PATCH 115/183] fix: product of two VecSparseFPS did not compile

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index 1da5652..43c4732 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -63,7 +63,7 @@ namespace suisen {
             std::sort(data.begin(), data.end(), [](auto &p1, auto &p2) { return p1.first < p2.first; });
             VecSparseFPS h;
             for (auto &[i, a] : data) {
-                h.add_to_last(i, std::move(a));
+                h.add_to_last({ i, std::move(a) });
             }
             return h;
         }
-- 
2.43.0


From 191feee6dc53e0562433645ba3221dcdd282355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:42 +0000
Subject: [PATCH 116/183] fix: VecSparseFPS::operator+ dropped the tail of one
 operand

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index 43c4732..5443121 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -43,7 +43,7 @@ namespace suisen {
         friend VecSparseFPS operator+(const VecSparseFPS &f, const VecSparseFPS &g) {
             const int n = f._f.size(), m = g._f.size();
             VecSparseFPS h;
-            for (int i = 0, j = 0; i < n and j < m;) {
+            for (int i = 0, j = 0; i < n or j < m;) {
                 if (j == m or (i < n and f._f[i].first < g._f[j].first)) {
                     h.add_to_last(f._f[i++]);
                 } else {
-- 
2.43.0


From 6ce208aec1d3ebc7ba2dd7b2a20d436967708b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:42 +0000
Subject: [PATCH 117/183] fix: VecSparseFPS::bostan_mori ignored the constant
 term of Q

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index 5443121..4aab54b 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -128,7 +128,7 @@ namespace suisen {
                 Q.clear();
                 for (int i = 0; i < int(nQ.size()); i += 2) Q.push_back(nQ[i]);
             }
-            return P[0];
+            return P[0] / Q[0];
         }
 
     private:
-- 
2.43.0


From 035e69ac96230f99ffda7311f6b09d711938926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:42 +0000
Subject: [PATCH 118/183] fix: compose wrapped coefficients of an inner series
 longer than n around cyclically

---
 library/polynomial/compose.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/compose.hpp b/library/polynomial/compose.hpp
index 9328da2..9d8d2e7 100644
--- a/library/polynomial/compose.hpp
+++ b/library/polynomial/compose.hpp
@@ -50,6 +50,7 @@ namespace suisen {
         const mint iz = mint(z).inv();
 
         g.erase(g.begin());
+        g.resize(n);
         g.resize(z);
         atcoder::internal::butterfly(g);
 
-- 
2.43.0


From 9e3f7fb3f5ccf1791bca0d5455b32a3f7cf85a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:54 +0000
Subject: [PATCH 119/183] fix: binomial_coefficient_small_r_offline wrote out
 of bounds when every r is 0

---
 library/sequence/binomial_coefficient_small_r_offline.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/sequence/binomial_coefficient_small_r_offline.hpp b/library/sequence/binomial_coefficient_small_r_offline.hpp
index e8e6f25..ba60c6b 100644
--- a/library/sequence/binomial_coefficient_small_r_offline.hpp
+++ b/library/sequence/binomial_coefficient_small_r_offline.hpp
@@ -112,6 +112,7 @@ namespace suisen {
 
             // S1[i][j] = S1[2^i,j] for 0<=i<t, 0<=j<=2^i
             std::vector<Polynomial<mint>> S1(t);
+            if (t == 0) return S1;
             S1[0] = { 1, 0 };
 
             for (int l = 0; l < t - 1; ++l) {
-- 
2.43.0


From d0f74883f7fa87813618026b60e198112aeb3b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:54 +0000
Subject: [PATCH 120/183] fix: sum_i_i_pow_d_r_pow_i::sum(t, m) did not compile
 and used the wrong power of r

---
 library/math/sum_i^d_r^i.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/sum_i^d_r^i.hpp b/library/math/sum_i^d_r^i.hpp
index 7d1c14a..4909793 100644
--- a/library/math/sum_i^d_r^i.hpp
+++ b/library/math/sum_i^d_r^i.hpp
@@ -29,7 +29,7 @@ namespace suisen {
             }
             prepare();
             auto res = shift_of_sampling_points<mint>(ys, t, m);
-            mint pr = r.pow(r);
+            mint pr = r.pow(t);
             for (auto &e : res) e *= pr, e += c, pr *= r;
             return res;
         }
-- 
2.43.0


From 47bc23051dad094f5567747c6831d5cd6b565ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:37 +0000
Subject: [PATCH 121/183] fix: bell_number computed one coefficient too few and
 accessed f[n] out of bounds

---
 library/sequence/bell_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/sequence/bell_number.hpp b/library/sequence/bell_number.hpp
index 54f70ee..4b36e78 100644
--- a/library/sequence/bell_number.hpp
+++ b/library/sequence/bell_number.hpp
@@ -18,7 +18,7 @@ namespace suisen {
         factorial<mint> fac(n);
         FPSType f(n + 1);
         for (int i = 1; i <= n; ++i) f[i] = fac.fac_inv(i);
-        f.exp_inplace(n);
+        f.exp_inplace(n + 1);
         for (int i = 0; i <= n; ++i) f[i] *= fac.fac(i);
         return f;
     }
-- 
2.43.0


From 4022e0623fed6e43e56bf0ce978cf020f886383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:37 +0000
Subject: [PATCH 122/183] fix: product_of_differences of an empty list was
 undefined behaviour

---
 library/math/product_of_differences.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/product_of_differences.hpp b/library/math/product_of_differences.hpp
index c247a3a..0b44604 100644
--- a/library/math/product_of_differences.hpp
+++ b/library/math/product_of_differences.hpp
@@ -15,6 +15,7 @@ namespace suisen {
         // => f'(x)=Σ_i Π[j!=i](x-x[j])
         // => f'(x[i])=Π[j!=i](x[i]-x[j])
         const int n = xs.size();
+        if (n == 0) return {};
         std::deque<FPSType> dq;
         for (int i = 0; i < n; ++i) dq.push_back(FPSType{ -xs[i], 1 });
         while (dq.size() >= 2) {
-- 
2.43.0


From 988a957f61f1ac91712f5f94cc9c6184bfc49711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:36 +0000
Subject: [PATCH 123/183] fix: integral_geometry: rays in opposite directions
 from the same origin compared equal

---
 library/integral_geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index a3d7a92..6c14287 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -123,7 +123,7 @@ namespace suisen::integral_geometry {
         return on_the_same_line(l, m);
     }
     bool operator==(const Ray& l, const Ray& m) {
-        return on_the_same_line(l, m) and l.a == m.a;
+        return on_the_same_line(l, m) and l.a == m.a and dot(l.b - l.a, m.b - m.a) > 0;
     }
     bool operator==(const Segment& l, const Segment& m) {
         return (l.a == m.a and l.b == m.b) or (l.a == m.b and l.b == m.a);
-- 
2.43.0


From ad3f487cb17c2f1521a85775b56198488fd39329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:36 +0000
Subject: [PATCH 124/183] fix: integral_geometry: convex_diameter and
 farthest_pair did not terminate on collinear points

---
 library/integral_geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index 6c14287..94c182a 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -201,7 +201,7 @@ namespace suisen::integral_geometry {
         for (int i = si, j = sj; i != sj or j != si;) {
             if (multiplied_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
             int ni = (i + 1) % sz, nj = (j + 1) % sz;
-            if (det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0) i = ni;
+            if (j == si or (i != sj and det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0)) i = ni;
             else j = nj;
         }
         return argmax;
-- 
2.43.0


From 74f8efba50ed83b35b17a87d6a9ebac5ff23dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:36 +0000
Subject: [PATCH 125/183] fix: count_lattice_points was wrong for clockwise
 polygons

---
 library/integral_geom/count_lattice_point.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/integral_geom/count_lattice_point.hpp b/library/integral_geom/count_lattice_point.hpp
index 8fa4874..74c5ff6 100644
--- a/library/integral_geom/count_lattice_point.hpp
+++ b/library/integral_geom/count_lattice_point.hpp
@@ -17,6 +17,7 @@ namespace suisen::integral_geometry {
             s += MultipliedType(x1) * y2 - MultipliedType(y1) * x2;
             b += std::abs(std::gcd(x2 - x1, y2 - y1));
         }
+        if (s < 0) s = -s;
         return (s + 2 + b) / 2;
     }
 } // namespace suisen::integral_geometry
-- 
2.43.0


From 97e7f97480211d606fc37a5e17d558d7c46edf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:37 +0000
Subject: [PATCH 126/183] fix: compare_by_atan2 was not irreflexive at the
 origin (undefined behaviour in std::sort)

---
 library/integral_geom/sort_points_by_argument.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/sort_points_by_argument.hpp b/library/integral_geom/sort_points_by_argument.hpp
index c6eb062..b5c4e2c 100644
--- a/library/integral_geom/sort_points_by_argument.hpp
+++ b/library/integral_geom/sort_points_by_argument.hpp
@@ -18,8 +18,8 @@ namespace suisen::integral_geometry {
         const auto &[x2, y2] = q;
         if ((y1 < 0) xor (y2 < 0)) return y1 < y2;
         if ((x1 < 0) xor (x2 < 0)) return (y1 >= 0) xor (x1 < x2);
-        if (x1 == 0 and y1 == 0) return true;
         if (x2 == 0 and y2 == 0) return false;
+        if (x1 == 0 and y1 == 0) return true;
         return (MultipliedType(y1) * x2 < MultipliedType(y2) * x1);
     }
     template <typename PointType, typename MultipliedType = long long>
-- 
2.43.0


From a1767c9ed71d609b3aa261770a487cfa02a942d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:45 +0000
Subject: [PATCH 127/183] fix: geometry: rays in opposite directions from the
 same origin compared equal

---
 library/geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 24fab8e..f87a9fe 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -332,7 +332,7 @@ namespace geometry {
         return on_the_same_line(l, m);
     }
     bool equals(const Ray &l, const Ray &m) {
-        return on_the_same_line(l, m) and equals(l.a, m.a);
+        return on_the_same_line(l, m) and equals(l.a, m.a) and sgn(dot(l.b - l.a, m.b - m.a)) == Sign::POSITIVE;
     }
     bool equals(const Segment &l, const Segment &m) {
         return (equals(l.a, m.a) and equals(l.b, m.b)) or (equals(l.a, m.b) and equals(l.b, m.a));
-- 
2.43.0


From d1a0ea1cf214f404fe5e8529cefcc346ce78b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:45 +0000
Subject: [PATCH 128/183] fix: geometry: convex_diameter did not terminate on
 collinear points

---
 library/geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index f87a9fe..5daee68 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -442,7 +442,7 @@ namespace geometry {
         for (int i = si, j = sj; i != sj or j != si;) {
             if (coordinate_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
             int ni = (i + 1) % sz, nj = (j + 1) % sz;
-            if (det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0) i = ni;
+            if (j == si or (i != sj and det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0)) i = ni;
             else j = nj;
         }
         return { argmax.first, argmax.second, ::sqrtl(max_dist) };
-- 
2.43.0


From adf865d7cda2dda82b0e2f3de61cc7403714acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:45 +0000
Subject: [PATCH 129/183] fix: geometry: pIabc did not return the excircles (it
 negated the vertices instead of the weights)

---
 library/geom/geometry.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 5daee68..146b40b 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -236,7 +236,12 @@ namespace geometry {
         return a + b + c - 2 * pO(a, b, c).center;
     }
     auto pIabc(const Point &a, const Point &b, const Point &c) {
-        return std::make_tuple(pI(-a, b, c), pI(a, -b, c), pI(a, b, -c));
+        const coordinate_t la = abs(b - c), lb = abs(c - a), lc = abs(a - b), s2 = 2 * area(a, b, c);
+        auto excircle = [&](coordinate_t wa, coordinate_t wb, coordinate_t wc) {
+            coordinate_t l = wa + wb + wc;
+            return Circle((wa * a + wb * b + wc * c) / l, s2 / l);
+        };
+        return std::make_tuple(excircle(-la, lb, lc), excircle(la, -lb, lc), excircle(la, lb, -lc));
     }
 
     // Line
-- 
2.43.0


From f5c930e70e05343b99ee28f82c959b1f8b6ad9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:46 +0000
Subject: [PATCH 130/183] fix: geometry3d: Plane could not be constructed from
 constant coefficients

---
 library/geom/geometry3d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry3d.hpp b/library/geom/geometry3d.hpp
index 8197ae3..964d7d2 100644
--- a/library/geom/geometry3d.hpp
+++ b/library/geom/geometry3d.hpp
@@ -188,7 +188,7 @@ namespace suisen::geometry3d {
         coordinate_t d;
         Plane() = default;
         Plane(const Point &p, const Point &q, const Point &r) : normal_vec(normalized((q - p) * (r - p))), d(-inner_product(normal_vec, p)) {}
-        Plane(const coordinate_t &a, coordinate_t &b, coordinate_t &c, coordinate_t &d) : normal_vec(normalized({a, b, c})), d(d / abs({a, b, c})) {}
+        Plane(const coordinate_t &a, const coordinate_t &b, const coordinate_t &c, const coordinate_t &d) : normal_vec(normalized({a, b, c})), d(d / abs({a, b, c})) {}
     };
 
     coordinate_t dist(const Plane &plane, const Point &p) {
-- 
2.43.0


From 9d8fea3deaad09d8161e4fda67aa05919d8122e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:10 +0000
Subject: [PATCH 131/183] fix: geometry3d: dist(Segment, Line) with a constant
 line measured the line through the segment

---
 library/geom/geometry3d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry3d.hpp b/library/geom/geometry3d.hpp
index 964d7d2..6ecad5a 100644
--- a/library/geom/geometry3d.hpp
+++ b/library/geom/geometry3d.hpp
@@ -150,7 +150,7 @@ namespace suisen::geometry3d {
         auto [p, q] = internal::closest_pair(l, m);
         return on(m, q) ? dist(p, q) : std::min(dist(l, m.first), dist(l, m.second));
     }
-    coordinate_t dist(const Segment &l, Line &m) {
+    coordinate_t dist(const Segment &l, const Line &m) {
         return dist(m, l);
     }
     coordinate_t dist(const Ray &l, const Ray &m) {
-- 
2.43.0


From 8c8747a8a530dcde8cc1ce29995d0f030b67baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:11 +0000
Subject: [PATCH 132/183] fix: HornSAT treated a variable forced to false as
 true in the premises

---
 library/algorithm/horn_sat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/algorithm/horn_sat.hpp b/library/algorithm/horn_sat.hpp
index 7744be5..8919813 100644
--- a/library/algorithm/horn_sat.hpp
+++ b/library/algorithm/horn_sat.hpp
@@ -40,7 +40,7 @@ class HornSAT {
                 if (not seen[i]) {
                     ans[i] = val;
                     seen[i] = true;
-                    for (const int j : ls[i]) {
+                    if (val) for (const int j : ls[i]) {
                         if (--c[j] == 0) dq.push_back(r[j]);
                     }
                 } else if (val != ans[i]) return has_answer = false;
-- 
2.43.0


From 1119a0feb8d3fc7690846f63a59a419cfaf3fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:11 +0000
Subject: [PATCH 133/183] fix: Affine and AffineClamp had their stream
 operators swapped

---
 library/algebra/monoid/affine.hpp       | 4 ++--
 library/algebra/monoid/affine_clamp.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/algebra/monoid/affine.hpp b/library/algebra/monoid/affine.hpp
index 7970dce..178d9a9 100644
--- a/library/algebra/monoid/affine.hpp
+++ b/library/algebra/monoid/affine.hpp
@@ -49,8 +49,8 @@ namespace suisen {
         template <typename U = T, typename V = T>
         operator std::tuple<U, V>() { return std::tuple<U, V>{ a, b }; }
 
-        friend std::istream& operator<<(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
-        friend std::ostream& operator>>(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
+        friend std::istream& operator>>(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
+        friend std::ostream& operator<<(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
     };
 } // namespace suisen
 
diff --git a/library/algebra/monoid/affine_clamp.hpp b/library/algebra/monoid/affine_clamp.hpp
index bb6d5b5..183acf8 100644
--- a/library/algebra/monoid/affine_clamp.hpp
+++ b/library/algebra/monoid/affine_clamp.hpp
@@ -32,8 +32,8 @@ namespace suisen {
         template <typename U = T, typename V = T, typename W = T, typename X = T>
         operator std::tuple<U, V, W, X>() { return { this->a, this->b, l, r }; }
 
-        friend std::istream& operator<<(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
-        friend std::ostream& operator>>(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
+        friend std::istream& operator>>(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
+        friend std::ostream& operator<<(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
     };
 } // namespace suisen
 
-- 
2.43.0


From f98092ad0950ee55a9c844e2e74cb29480b15148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 134/183] fix: bit_utils counted leading zeros and set bits of
 8- and 16-bit integers in 32 bits

---
 library/util/bit_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/bit_utils.hpp b/library/util/bit_utils.hpp
index 17232c1..8f06f33 100644
--- a/library/util/bit_utils.hpp
+++ b/library/util/bit_utils.hpp
@@ -9,11 +9,11 @@
 #include "library/type_traits/type_traits.hpp"
 namespace suisen {
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-    __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u32(x); }
+    __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u32(std::make_unsigned_t<T>(x)); }
     template <typename T, std::enable_if_t<suisen::is_nbit_v<T, 64>, std::nullptr_t> = nullptr>
     __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u64(x); }
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-    constexpr int count_lz(const T x) { return x ? __builtin_clz(x) : suisen::bitnum_v<T>; }
+    constexpr int count_lz(const T x) { return x ? __builtin_clz(std::make_unsigned_t<T>(x)) - (32 - suisen::bitnum_v<T>) : suisen::bitnum_v<T>; }
     template <typename T, std::enable_if_t<suisen::is_nbit_v<T, 64>, std::nullptr_t> = nullptr>
     constexpr int count_lz(const T x) { return x ? __builtin_clzll(x) : suisen::bitnum_v<T>; }
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-- 
2.43.0


From 44741eb2c69e7005de2845a60c54a2851689f205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 135/183] fix: default-constructed CumulativeSum and
 CumulativeSum2D had an uninitialised size

---
 library/util/cumulative_sum.hpp    | 2 +-
 library/util/cumulative_sum_2d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/cumulative_sum.hpp b/library/util/cumulative_sum.hpp
index db9cff4..c2e1674 100644
--- a/library/util/cumulative_sum.hpp
+++ b/library/util/cumulative_sum.hpp
@@ -8,7 +8,7 @@
 namespace suisen {
     template <typename T, auto zero = default_operator::zero<T>, auto add = default_operator::add<T>, auto sub = default_operator::sub<T>>
     struct CumulativeSum {
-        CumulativeSum() = default;
+        CumulativeSum() : CumulativeSum(std::vector<T>{}) {}
         CumulativeSum(const std::vector<T> &a) : n(a.size()), s(n + 1, zero()) {
             for (size_t i = 0; i < n; ++i) s[i + 1] = add(a[i], s[i]);
         }
diff --git a/library/util/cumulative_sum_2d.hpp b/library/util/cumulative_sum_2d.hpp
index c58c8ed..3263765 100644
--- a/library/util/cumulative_sum_2d.hpp
+++ b/library/util/cumulative_sum_2d.hpp
@@ -8,7 +8,7 @@
 namespace suisen {
     template <typename T, auto zero = default_operator::zero<T>, auto add = default_operator::add<T>, auto sub = default_operator::sub<T>>
     struct CumulativeSum2D {
-        CumulativeSum2D() = default;
+        CumulativeSum2D() : CumulativeSum2D(std::vector<std::vector<T>>{}) {}
         CumulativeSum2D(const std::vector<std::vector<T>> &a) : n(a.size()), m(n == 0 ? 0 : a[0].size()), s(n + 1, std::vector<T>(m + 1, zero())) {
             for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
                 s[i + 1][j + 1] = sub(add(add(a[i][j], s[i + 1][j]), s[i][j + 1]), s[i][j]);
-- 
2.43.0


From ed8bdd807b31d272ec20d4557957f74908b93a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 136/183] fix: default_vector::size could not be called on a
 constant vector

---
 library/util/default_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/default_vector.hpp b/library/util/default_vector.hpp
index fefa450..47aca76 100644
--- a/library/util/default_vector.hpp
+++ b/library/util/default_vector.hpp
@@ -30,7 +30,7 @@ class default_vector : public std::vector<T> {
         T get_or_default(int i, T tmp_default_value) const {
             return index_out_of_bounds(i) ? tmp_default_value : std::vector<T>::operator[](i);
         }
-        int size() {
+        int size() const {
             return std::vector<T>::size();
         }
         void resize(int n) {
-- 
2.43.0


From e716a4cad381379e7a81fc4f0ceb27cb6e69b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 137/183] fix: Permutation::pow overflowed for exponents near
 the maximum of long long

---
 library/util/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/permutation.hpp b/library/util/permutation.hpp
index f96232e..ee1783a 100644
--- a/library/util/permutation.hpp
+++ b/library/util/permutation.hpp
@@ -62,7 +62,7 @@ namespace suisen {
                 for (int j = 0; j < l; ++j) {
                     int v = cycle[j];
                     seen[v] = true;
-                    res[v] = cycle[(j + k) % l];
+                    res[v] = cycle[(j + k % l) % l];
                 }
             }
             return res;
-- 
2.43.0


From c98ad7da377b91cafd0b2a712ccc6a1aced598db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 138/183] fix: RunLengthEncoder::swap and clear left the length
 behind

---
 library/util/run_length_encoder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/util/run_length_encoder.hpp b/library/util/run_length_encoder.hpp
index 8c36b17..2166c7b 100644
--- a/library/util/run_length_encoder.hpp
+++ b/library/util/run_length_encoder.hpp
@@ -20,9 +20,9 @@ class RunLengthEncoder {
         long long length() const noexcept {
             return _length;
         }
-        void swap(RunLengthEncoder<Container>  &other) { comp.swap(other.comp); }
-        void swap(RunLengthEncoder<Container> &&other) { comp.swap(other.comp); }
-        void clear() { comp.clear(); }
+        void swap(RunLengthEncoder<Container>  &other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void swap(RunLengthEncoder<Container> &&other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void clear() { _length = 0, comp.clear(); }
         auto begin()   const noexcept { return comp.begin();   }
         auto end()     const noexcept { return comp.end();     }
         auto rbegin()  const noexcept { return comp.rbegin();  }
-- 
2.43.0


From dadad7e9ca5b15cca73edff45a1970371f611a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 139/183] fix: RunLengthEncoder::pop_back did not compile and
 did not update the length

---
 library/util/run_length_encoder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/util/run_length_encoder.hpp b/library/util/run_length_encoder.hpp
index 2166c7b..131338b 100644
--- a/library/util/run_length_encoder.hpp
+++ b/library/util/run_length_encoder.hpp
@@ -49,8 +49,9 @@ class RunLengthEncoder {
             while (comp.size()) {
                 long long cnt = comp.back().second;
                 if (cnt > num) {
-                    comp.back.second -= num;
-                    return rem + num;
+                    comp.back().second -= num;
+                    rem += num;
+                    break;
                 }
                 num -= cnt, rem += cnt;
                 comp.pop_back();
-- 
2.43.0


From 91dce7a90853b71c4001ff5dc9862103bf7c53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 140/183] fix: integral ternary_search_value returned the value
 in the argument's type

---
 library/util/search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/search.hpp b/library/util/search.hpp
index f5fc372..eacd2c8 100644
--- a/library/util/search.hpp
+++ b/library/util/search.hpp
@@ -79,7 +79,7 @@ namespace suisen {
      */
     template <ternary_search_tag tag, typename Arg, typename Fun,
         std::enable_if_t<std::conjunction_v<std::is_invocable<Fun, Arg>, std::is_integral<Arg>>, std::nullptr_t> = nullptr>
-    Arg ternary_search_value(Arg l, Arg r, const Fun &f) {
+    std::invoke_result_t<Fun, Arg> ternary_search_value(Arg l, Arg r, const Fun &f) {
         return f(ternary_search_key<tag>(l, r, f));
     }
 
-- 
2.43.0


From f94df2f766dff2d6159cf5fdac4899b5066aef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 141/183] fix: StepSum::sum read out of bounds when the residue
 lies beyond the sequence

---
 library/util/step_sum.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/util/step_sum.hpp b/library/util/step_sum.hpp
index f9a82aa..62b0bcc 100644
--- a/library/util/step_sum.hpp
+++ b/library/util/step_sum.hpp
@@ -19,8 +19,9 @@ namespace suisen {
         }
         // sum A_i for i = k (mod step) and i in [l, r)
         value_type sum(int k, int l, int r) const {
-            if (r <= k or r <= l or l >= _n) return 0;
-            const int t = _br.quo(std::min(_n, r) - 1 - k);
+            r = std::min(_n, r);
+            if (r <= k or r <= l) return 0;
+            const int t = _br.quo(r - 1 - k);
             T ans = _sum[t * _step + k];
             if (l > k) {
                 const int s = _br.quo(l - 1 - k);
-- 
2.43.0


From 223e2cd852b035213e7bfae6db36af8501165e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 142/183] fix: sum_count_lt, sum_count_geq and sum_count_gt
 ignored the requested result type

---
 library/util/sum_count.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/util/sum_count.hpp b/library/util/sum_count.hpp
index 26fcd61..d9379b3 100644
--- a/library/util/sum_count.hpp
+++ b/library/util/sum_count.hpp
@@ -28,19 +28,19 @@ namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b<x)
     template <typename T, typename R = T>
     constexpr R sum_count_lt(T min_a, T max_a, T min_b, T max_b, T x) {
-        return sum_count_leq(min_a, max_a, min_b, max_b, x - 1);
+        return sum_count_leq<T, R>(min_a, max_a, min_b, max_b, x - 1);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b>=min_sum)
     template <typename T, typename R = T>
     constexpr R sum_count_geq(T min_a, T max_a, T min_b, T max_b, T min_sum) {
-        return std::max<R>(0, max_a - min_a + 1) * std::max<R>(0, max_b - min_b + 1) - sum_count_lt(min_a, max_a, min_b, max_b, min_sum);
+        return std::max<R>(0, R(max_a) - R(min_a) + 1) * std::max<R>(0, R(max_b) - R(min_b) + 1) - sum_count_lt<T, R>(min_a, max_a, min_b, max_b, min_sum);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b>x)
     template <typename T, typename R = T>
     constexpr R sum_count_gt(T min_a, T max_a, T min_b, T max_b, T x) {
-        return std::max<R>(0, max_a - min_a + 1) * std::max<R>(0, max_b - min_b + 1) - sum_count_leq(min_a, max_a, min_b, max_b, x);
+        return std::max<R>(0, R(max_a) - R(min_a) + 1) * std::max<R>(0, R(max_b) - R(min_b) + 1) - sum_count_leq<T, R>(min_a, max_a, min_b, max_b, x);
     }
 } // namespace suisen
 
-- 
2.43.0


From 880522d1aa29618845b9863815e91428a2dccb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 143/183] fix: appending a vector to itself with += wrote out
 of bounds

---
 library/util/vector_ops.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/util/vector_ops.hpp b/library/util/vector_ops.hpp
index 18bb463..c39d364 100644
--- a/library/util/vector_ops.hpp
+++ b/library/util/vector_ops.hpp
@@ -6,9 +6,9 @@
 namespace suisen {
 template <typename T>
 std::vector<T>& operator+=(std::vector<T> &a, const std::vector<T> &b) {
-    int n = a.size();
-    a.resize(n + b.size());
-    std::copy(b.begin(), b.end(), a.begin() + n);
+    int n = a.size(), m = b.size();
+    a.resize(n + m);
+    std::copy(b.begin(), b.begin() + m, a.begin() + n);
     return a;
 }
 template <typename T>
-- 
2.43.0


From 48810a019465d6bfe2ce4c6fa8a71006295af686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 144/183] fix: repeating a vector with *= wrote out of bounds

---
 library/util/vector_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/vector_ops.hpp b/library/util/vector_ops.hpp
index c39d364..e7e7787 100644
--- a/library/util/vector_ops.hpp
+++ b/library/util/vector_ops.hpp
@@ -35,7 +35,7 @@ template <typename T>
 std::vector<T>& operator*=(std::vector<T> &a, const int repeat) {
     int n = a.size();
     a.resize(n * repeat);
-    for (int i = 1; i < repeat; ++i) std::copy(a.begin(), a.end(), a.begin() + i * n);
+    for (int i = 1; i < repeat; ++i) std::copy(a.begin(), a.begin() + n, a.begin() + i * n);
     return a;
 }
 template <typename T>
-- 
2.43.0


From 11e01e75444938079961b617b9d9d453746a47f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 145/183] fix: repeating a constant vector with * did not
 compile

---
 library/util/vector_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/vector_ops.hpp b/library/util/vector_ops.hpp
index e7e7787..9744cee 100644
--- a/library/util/vector_ops.hpp
+++ b/library/util/vector_ops.hpp
@@ -39,7 +39,7 @@ std::vector<T>& operator*=(std::vector<T> &a, const int repeat) {
     return a;
 }
 template <typename T>
-std::vector<T> operator*(std::vector<T> &a, const int repeat) {
+std::vector<T> operator*(const std::vector<T> &a, const int repeat) {
     std::vector<T> c = a; return c *= repeat;
 }
 } // namespace suisen
-- 
2.43.0


From 704b00658da059f91e766e18ac4da5afaf3fc495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:50 +0000
Subject: [PATCH 146/183] fix: VecZobristHash reused the initial random values
 for keys added later

---
 library/util/zobrist_hash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/util/zobrist_hash.hpp b/library/util/zobrist_hash.hpp
index 024e52c..edb4def 100644
--- a/library/util/zobrist_hash.hpp
+++ b/library/util/zobrist_hash.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <array>
+#include <functional>
 #include <map>
 #include <vector>
 #include <random>
@@ -53,7 +54,7 @@ namespace suisen {
 
         VecZobristHash() = default;
         VecZobristHash(typename Base::value_type max_val) : Base(max_val + 1) {
-            std::generate(this->h.begin(), this->h.end(), this->rng);
+            std::generate(this->h.begin(), this->h.end(), std::ref(this->rng));
         }
 
     protected:
-- 
2.43.0


From ef90d9c7a132a0d3cf69b40d2f26baeb18c3f204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:16 +0000
Subject: [PATCH 147/183] fix: number/factorized_form.hpp did not compile
 (FactorizedForm named PrimePower without its argument)

---
 library/number/factorized_form.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorized_form.hpp b/library/number/factorized_form.hpp
index 6ccf836..f339ab2 100644
--- a/library/number/factorized_form.hpp
+++ b/library/number/factorized_form.hpp
@@ -24,7 +24,7 @@ namespace suisen {
         }
     };
     template <typename T, std::enable_if_t<std::is_integral_v<T>, std::nullptr_t> = nullptr>
-    using FactorizedForm = std::vector<PrimePower>;
+    using FactorizedForm = std::vector<PrimePower<T>>;
 } // namespace suisen
 
 namespace std {
-- 
2.43.0


From d96919edbfe3cb2aa57970d246a3ea5348625094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:50 +0000
Subject: [PATCH 148/183] fix: max_right<pred> and min_left<pred> of
 RangeChMinMaxAddRangeSum did not compile

---
 library/range_query/range_chmin_chmax_add_range_sum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/range_query/range_chmin_chmax_add_range_sum.hpp b/library/range_query/range_chmin_chmax_add_range_sum.hpp
index 2a2ebb2..61bca4e 100644
--- a/library/range_query/range_chmin_chmax_add_range_sum.hpp
+++ b/library/range_query/range_chmin_chmax_add_range_sum.hpp
@@ -66,7 +66,7 @@ namespace suisen {
         }
         template <bool(*pred)(DataType)>
         int max_right(int l) {
-            return seg.max_right<pred>(l);
+            return seg.template max_right<pred>(l);
         }
         template <typename Pred>
         int max_right(int l, Pred &&pred) {
@@ -74,7 +74,7 @@ namespace suisen {
         }
         template <bool(*pred)(DataType)>
         int min_left(int r) {
-            return seg.min_left<pred>(r);
+            return seg.template min_left<pred>(r);
         }
         template <typename Pred>
         int min_left(int r, Pred &&pred) {
-- 
2.43.0


From 38e7c22b72b831ad39f91d6b44cbcca23cf77bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:50 +0000
Subject: [PATCH 149/183] fix: FunctionalGraph::doubling did not terminate for
 max_step >= 2^62

---
 library/graph/functional_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/functional_graph.hpp b/library/graph/functional_graph.hpp
index 981abfb..56c58a9 100644
--- a/library/graph/functional_graph.hpp
+++ b/library/graph/functional_graph.hpp
@@ -225,7 +225,7 @@ namespace suisen {
 
         static int floor_log2(long long v) {
             int l = 0;
-            while (1LL << (l + 1) <= v) ++l;
+            while ((v >> l) > 1) ++l;
             return l;
         }
     };
-- 
2.43.0


From 088f4044f5797dd2f9c2332dc7ffcbfe65d68674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:13 +0000
Subject: [PATCH 150/183] fix: ReversibleDynamicSequence erase_binary_search
 erases only the first match

---
 .../bbst/reversible_implicit_treap_base.hpp           | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 77cec46..2bd8dd2 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -309,14 +309,19 @@ namespace suisen::internal::implicit_treap {
         // returns { node, optional(position, value) }
         template <typename Predicate, typename RemovePredicate>
         static std::pair<node_pointer, std::optional<std::pair<size_type, value_type>>> erase_binary_search(node_pointer t, const Predicate& f, const RemovePredicate& g) {
+            bool found = false;
+            return erase_binary_search_impl(t, f, g, found);
+        }
+        template <typename Predicate, typename RemovePredicate>
+        static std::pair<node_pointer, std::optional<std::pair<size_type, value_type>>> erase_binary_search_impl(node_pointer t, const Predicate& f, const RemovePredicate& g, bool& found) {
             if (not t) return { empty_node(), std::nullopt };
             node_type::push(t);
             if (f(value(t))) {
-                auto [c0, erased] = erase_binary_search(child0(t), f, g);
+                auto [c0, erased] = erase_binary_search_impl(child0(t), f, g, found);
                 if (erased) {
                     set_child0(t, c0);
                     return { node_type::update(t), std::move(erased) };
-                } else if (g(value(t))) {
+                } else if (not std::exchange(found, true) and g(value(t))) {
                     node_pointer::dealloc(t);
                     std::pair<size_type, value_type> erased_entry{ safe_size(child0(t)), std::move(value(t)) };
                     return { merge(child0(t), child1(t)), std::move(erased_entry) };
@@ -324,7 +329,7 @@ namespace suisen::internal::implicit_treap {
                     return { t, std::nullopt };
                 }
             } else {
-                auto [c1, erased] = erase_binary_search(child1(t), f, g);
+                auto [c1, erased] = erase_binary_search_impl(child1(t), f, g, found);
                 if (erased) {
                     set_child1(t, c1);
                     size_type& pos = erased->first;
-- 
2.43.0


From 33b73bfdc92b15df97e55af35423cf03dda8c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:23 +0000
Subject: [PATCH 151/183] fix: integral_geom headers get include guards of
 their own

---
 library/integral_geom/closest_pair.hpp | 6 +++---
 library/integral_geom/geometry.hpp     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/integral_geom/closest_pair.hpp b/library/integral_geom/closest_pair.hpp
index 3ac591a..4bc4759 100644
--- a/library/integral_geom/closest_pair.hpp
+++ b/library/integral_geom/closest_pair.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_CLOSEST_PAIR
-#define SUISEN_CLOSEST_PAIR
+#ifndef SUISEN_INTEGRAL_CLOSEST_PAIR
+#define SUISEN_INTEGRAL_CLOSEST_PAIR
 
 #include <cassert>
 
@@ -58,4 +58,4 @@ namespace suisen::integral_geometry {
 } // namespace suisen::integral_geometry
 
 
-#endif // SUISEN_CLOSEST_PAIR
+#endif // SUISEN_INTEGRAL_CLOSEST_PAIR
diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index 94c182a..b2e8ca3 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_GEOMETRY
-#define SUISEN_GEOMETRY
+#ifndef SUISEN_INTEGRAL_GEOMETRY
+#define SUISEN_INTEGRAL_GEOMETRY
 
 #include <algorithm>
 #include <cmath>
@@ -238,4 +238,4 @@ namespace suisen::integral_geometry {
     }
 } // namespace suisen::integral_geometry
 
-#endif // SUISEN_GEOMETRY
+#endif // SUISEN_INTEGRAL_GEOMETRY
-- 
2.43.0


From 9a8874994a8ccc7d02a9c1bc5bfc6d364457b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:01 +0000
Subject: [PATCH 152/183] fix: headers include the standard and library headers
 they use

---
 library/algorithm/area_of_union_of_rectangles.hpp               | 1 +
 library/convolution/polynomial_eval_multipoint_eval.hpp         | 1 +
 library/convolution/relaxed_convolution.hpp                     | 1 +
 library/convolution/semi_relaxed_convolution.hpp                | 1 +
 library/datastructure/permutation_tree.hpp                      | 1 +
 library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp | 1 +
 library/datastructure/segment_tree/sparse_segment_tree.hpp      | 1 +
 library/graph/csr_graph.hpp                                     | 2 ++
 library/graph/enumerate_cliques.hpp                             | 1 +
 library/io/input_stream.hpp                                     | 1 +
 library/io/output_stream.hpp                                    | 1 +
 library/number/find_denominators.hpp                            | 1 +
 library/polynomial/bostan_mori.hpp                              | 2 ++
 library/polynomial/lagrange_interpolation.hpp                   | 2 ++
 library/polynomial/rational_fps.hpp                             | 1 +
 library/polynomial/subset_sum.hpp                               | 1 +
 library/range_query/static_range_xored_mex_query.hpp            | 1 +
 library/string/rolling_hash_field.hpp                           | 1 +
 library/util/container_utils.hpp                                | 1 +
 library/util/hashes.hpp                                         | 1 +
 library/util/sum_count.hpp                                      | 2 ++
 21 files changed, 25 insertions(+)

diff --git a/library/algorithm/area_of_union_of_rectangles.hpp b/library/algorithm/area_of_union_of_rectangles.hpp
index 4826028..018f47d 100644
--- a/library/algorithm/area_of_union_of_rectangles.hpp
+++ b/library/algorithm/area_of_union_of_rectangles.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_AREA_OF_UNION_OF_RECTANGLES
 #define SUISEN_AREA_OF_UNION_OF_RECTANGLES
 
+#include <algorithm>
 #include <limits>
 #include <tuple>
 #include <vector>
diff --git a/library/convolution/polynomial_eval_multipoint_eval.hpp b/library/convolution/polynomial_eval_multipoint_eval.hpp
index 45d9e8b..903b180 100644
--- a/library/convolution/polynomial_eval_multipoint_eval.hpp
+++ b/library/convolution/polynomial_eval_multipoint_eval.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_APPLY_POLYNOMIAL_MULTIPOINT_EVAL
 #define SUISEN_APPLY_POLYNOMIAL_MULTIPOINT_EVAL
 
+#include "library/polynomial/fps.hpp"
 #include "library/polynomial/multi_point_eval.hpp"
 #include "library/type_traits/type_traits.hpp"
 
diff --git a/library/convolution/relaxed_convolution.hpp b/library/convolution/relaxed_convolution.hpp
index cdf7eae..8365e9e 100644
--- a/library/convolution/relaxed_convolution.hpp
+++ b/library/convolution/relaxed_convolution.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RELAXED_CONVOLUTION
 #define SUISEN_RELAXED_CONVOLUTION
 
+#include <cassert>
 #include <vector>
 
 namespace suisen {
diff --git a/library/convolution/semi_relaxed_convolution.hpp b/library/convolution/semi_relaxed_convolution.hpp
index 1b800d4..08f54df 100644
--- a/library/convolution/semi_relaxed_convolution.hpp
+++ b/library/convolution/semi_relaxed_convolution.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_SEMI_RELAXED_CONVOLUTION
 #define SUISEN_SEMI_RELAXED_CONVOLUTION
 
+#include <cassert>
 #include <vector>
 
 namespace suisen {
diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index 1f5fc36..b9c466d 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <cassert>
 #include <limits>
+#include <ostream>
 #include <utility>
 #include <vector>
 
diff --git a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
index c11d144..edb9803 100644
--- a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
@@ -3,6 +3,7 @@
 
 #include <array>
 #include <cassert>
+#include <cstdint>
 #include <vector>
 
 namespace suisen {
diff --git a/library/datastructure/segment_tree/sparse_segment_tree.hpp b/library/datastructure/segment_tree/sparse_segment_tree.hpp
index 6d5bd04..b4bedd6 100644
--- a/library/datastructure/segment_tree/sparse_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sparse_segment_tree.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_SPARSE_SEGTREE
 
 #include <cassert>
+#include <cstdint>
 #include <vector>
 
 namespace suisen {
diff --git a/library/graph/csr_graph.hpp b/library/graph/csr_graph.hpp
index 55a39a8..d716d3c 100644
--- a/library/graph/csr_graph.hpp
+++ b/library/graph/csr_graph.hpp
@@ -3,6 +3,8 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
+#include <iostream>
 #include <limits>
 #include <optional>
 #include <type_traits>
diff --git a/library/graph/enumerate_cliques.hpp b/library/graph/enumerate_cliques.hpp
index d68d9d0..9b7aff8 100644
--- a/library/graph/enumerate_cliques.hpp
+++ b/library/graph/enumerate_cliques.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_ENUMERATE_CLIQUES
 
 #include <algorithm>
+#include <numeric>
 #include <vector>
 
 namespace suisen {
diff --git a/library/io/input_stream.hpp b/library/io/input_stream.hpp
index 19f152a..05820c3 100644
--- a/library/io/input_stream.hpp
+++ b/library/io/input_stream.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_INPUT_STREAM
 
 #include <iostream>
+#include <tuple>
 #include "library/type_traits/type_traits.hpp"
 namespace suisen::io {
     template <typename IStream, std::enable_if_t<std::conjunction_v<std::is_base_of<std::istream, std::remove_reference_t<IStream>>, std::negation<std::is_const<std::remove_reference_t<IStream>>>>, std::nullptr_t> = nullptr>
diff --git a/library/io/output_stream.hpp b/library/io/output_stream.hpp
index dd07933..7c691a1 100644
--- a/library/io/output_stream.hpp
+++ b/library/io/output_stream.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_OUTPUT_STREAM
 
 #include <iostream>
+#include <tuple>
 #include "library/type_traits/type_traits.hpp"
 namespace suisen::io {
     template <typename OStream, std::enable_if_t<std::conjunction_v<std::is_base_of<std::ostream, std::remove_reference_t<OStream>>, std::negation<std::is_const<std::remove_reference_t<OStream>>>>, std::nullptr_t> = nullptr>
diff --git a/library/number/find_denominators.hpp b/library/number/find_denominators.hpp
index 986a211..07114c9 100644
--- a/library/number/find_denominators.hpp
+++ b/library/number/find_denominators.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_FIND_DENOMINATORS
 #define SUISEN_FIND_DENOMINATORS
 
+#include <algorithm>
 #include <limits>
 #include <optional>
 #include <type_traits>
diff --git a/library/polynomial/bostan_mori.hpp b/library/polynomial/bostan_mori.hpp
index d9f8f6b..07a72b7 100644
--- a/library/polynomial/bostan_mori.hpp
+++ b/library/polynomial/bostan_mori.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_BOSTAN_MORI
 #define SUISEN_BOSTAN_MORI
 
+#include <utility>
+
 namespace suisen {
     template <typename FPSType>
     typename FPSType::value_type bostan_mori(FPSType P, FPSType Q, unsigned long long n) {
diff --git a/library/polynomial/lagrange_interpolation.hpp b/library/polynomial/lagrange_interpolation.hpp
index cb0eff8..f700e82 100644
--- a/library/polynomial/lagrange_interpolation.hpp
+++ b/library/polynomial/lagrange_interpolation.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_INTERPOLATION
 #define SUISEN_INTERPOLATION
 
+#include <cassert>
+
 #include "library/math/product_of_differences.hpp"
 
 namespace suisen {
diff --git a/library/polynomial/rational_fps.hpp b/library/polynomial/rational_fps.hpp
index dae09a2..471f96e 100644
--- a/library/polynomial/rational_fps.hpp
+++ b/library/polynomial/rational_fps.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RATIONAL_FPS
 #define SUISEN_RATIONAL_FPS
 
+#include <cassert>
 #include <queue>
 #include <utility>
 
diff --git a/library/polynomial/subset_sum.hpp b/library/polynomial/subset_sum.hpp
index a7accaa..727d765 100644
--- a/library/polynomial/subset_sum.hpp
+++ b/library/polynomial/subset_sum.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_SUBSET_SUM
 #define SUISEN_SUBSET_SUM
 
+#include <cassert>
 #include <vector>
 
 #include "library/math/inv_mods.hpp"
diff --git a/library/range_query/static_range_xored_mex_query.hpp b/library/range_query/static_range_xored_mex_query.hpp
index a6ecdb4..5e28adf 100644
--- a/library/range_query/static_range_xored_mex_query.hpp
+++ b/library/range_query/static_range_xored_mex_query.hpp
@@ -3,6 +3,7 @@
 
 #include <cassert>
 #include <array>
+#include <tuple>
 #include <type_traits>
 #include <limits>
 
diff --git a/library/string/rolling_hash_field.hpp b/library/string/rolling_hash_field.hpp
index f431e18..cddb8da 100644
--- a/library/string/rolling_hash_field.hpp
+++ b/library/string/rolling_hash_field.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_ROLLING_HASH_FIELD
 
 #include <array>
+#include <cassert>
 #include <cstdint>
 #include <functional>
 #include <string>
diff --git a/library/util/container_utils.hpp b/library/util/container_utils.hpp
index 19cb640..8f7e0b9 100644
--- a/library/util/container_utils.hpp
+++ b/library/util/container_utils.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_CONTAINER_UTILS
 #define SUISEN_CONTAINER_UTILS
 
+#include <algorithm>
 #include <vector>
 #include <optional>
 #include <sstream>
diff --git a/library/util/hashes.hpp b/library/util/hashes.hpp
index 0516e3f..1cec253 100644
--- a/library/util/hashes.hpp
+++ b/library/util/hashes.hpp
@@ -3,6 +3,7 @@
 
 #include <array>
 #include <cstdint>
+#include <functional>
 #include <tuple>
 #include <utility>
 
diff --git a/library/util/sum_count.hpp b/library/util/sum_count.hpp
index d9379b3..c3bee91 100644
--- a/library/util/sum_count.hpp
+++ b/library/util/sum_count.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_SUM_COUNT
 #define SUISEN_SUM_COUNT
 
+#include <algorithm>
+
 namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b=sum)
     template <typename T, typename R = T>
-- 
2.43.0


From 3b01a6cabc6e5cf3a2c8fe61f3fcd29a98842bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:17 +0000
Subject: [PATCH 153/183] fix: closest_pair stays O(n log n) when many points
 coincide

---
 library/geom/closest_pair.hpp          | 4 ++--
 library/integral_geom/closest_pair.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/geom/closest_pair.hpp b/library/geom/closest_pair.hpp
index 63335a6..903da66 100644
--- a/library/geom/closest_pair.hpp
+++ b/library/geom/closest_pair.hpp
@@ -42,12 +42,12 @@ std::pair<Point, Point> closest_pair(std::vector<Point> points) {
             dmin[l] = std::min(dmin[l], dmin[m]);
             std::vector<int> ids;
             for (int i = l; i < r; ++i) {
-                if (compare(std::abs(y[i].real() - points[m].real()), dmin[l]) > 0) {
+                if (std::abs(y[i].real() - points[m].real()) >= dmin[l]) {
                     continue;
                 }
                 for (auto it = ids.rbegin(); it != ids.rend(); ++it) {
                     const Point &p = y[*it];
-                    if (compare(y[i].imag() - p.imag(), dmin[l]) > 0) {
+                    if (y[i].imag() - p.imag() >= dmin[l]) {
                         break;
                     }
                     update_min(l, y[i], p);
diff --git a/library/integral_geom/closest_pair.hpp b/library/integral_geom/closest_pair.hpp
index 4bc4759..72e7119 100644
--- a/library/integral_geom/closest_pair.hpp
+++ b/library/integral_geom/closest_pair.hpp
@@ -42,10 +42,10 @@ namespace suisen::integral_geometry {
                 dmin[l] = std::min(dmin[l], dmin[m]);
                 std::vector<int> ids;
                 for (int i = l; i < r; ++i) {
-                    if (coordinate_t dx = y[i].x - points[m].x; dx * dx > dmin[l]) continue;
+                    if (coordinate_t dx = y[i].x - points[m].x; dx * dx >= dmin[l]) continue;
                     for (auto it = ids.rbegin(); it != ids.rend(); ++it) {
                         const Point& p = y[*it];
-                        if (coordinate_t dy = y[i].y - p.y; dy * dy > dmin[l]) break;
+                        if (coordinate_t dy = y[i].y - p.y; dy * dy >= dmin[l]) break;
                         update_min(l, y[i], p);
                     }
                     ids.push_back(i);
-- 
2.43.0


From 317f0f8acbf82b8bcc39c361d24e75a4381f2cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:24 +0000
Subject: [PATCH 154/183] fix: every header has an include guard

---
 library/debug/tree.hpp      | 5 +++++
 library/icpc/parsing.hpp    | 5 +++++
 library/template.hpp        | 7 ++++++-
 library/util/grid_utils.hpp | 5 +++++
 library/util/search.hpp     | 5 +++++
 5 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/library/debug/tree.hpp b/library/debug/tree.hpp
index 99d8674..d42e05f 100644
--- a/library/debug/tree.hpp
+++ b/library/debug/tree.hpp
@@ -1,3 +1,6 @@
+#ifndef SUISEN_DEBUG_TREE
+#define SUISEN_DEBUG_TREE
+
 #include <functional>
 #include <string>
 
@@ -202,3 +205,5 @@ namespace debug {
 }
 } // namespace suisen
 
+
+#endif // SUISEN_DEBUG_TREE
diff --git a/library/icpc/parsing.hpp b/library/icpc/parsing.hpp
index 8832f47..5f3c24e 100644
--- a/library/icpc/parsing.hpp
+++ b/library/icpc/parsing.hpp
@@ -1,3 +1,6 @@
+#ifndef SUISEN_PARSING
+#define SUISEN_PARSING
+
 #include <iostream>
 #include <optional>
 #include <string>
@@ -119,3 +122,5 @@ namespace suisen::parsing {
         }
     }
 }
+
+#endif // SUISEN_PARSING
diff --git a/library/template.hpp b/library/template.hpp
index 60c929d..c0ce67b 100644
--- a/library/template.hpp
+++ b/library/template.hpp
@@ -1,3 +1,6 @@
+#ifndef SUISEN_TEMPLATE
+#define SUISEN_TEMPLATE
+
 #include <bits/stdc++.h>
 namespace suisen {
     template <class T> bool chmin(T& x, const T& y) { return y >= x ? false : (x = y, true); }
@@ -83,4 +86,6 @@ template <class H, class... Ts> void debug_impl(const char* s, const H& h, const
 #define RREP(i, ...) CFOR(i, suisen::macro::rrep_impl(__VA_ARGS__))
 #define REPINF(i, ...) CFOR(i, suisen::macro::repinf_impl(__VA_ARGS__))
 #define LOOP(n) for ([[maybe_unused]] const auto& _ : suisen::macro::rep_impl(n))
-#define ALL(iterable) std::begin(iterable), std::end(iterable)
\ No newline at end of file
+#define ALL(iterable) std::begin(iterable), std::end(iterable)
+
+#endif // SUISEN_TEMPLATE
diff --git a/library/util/grid_utils.hpp b/library/util/grid_utils.hpp
index 314523e..ce479b1 100644
--- a/library/util/grid_utils.hpp
+++ b/library/util/grid_utils.hpp
@@ -1,3 +1,6 @@
+#ifndef SUISEN_GRID_UTILS
+#define SUISEN_GRID_UTILS
+
 #include <utility>
 #include <vector>
 
@@ -102,3 +105,5 @@ auto adjacent_eight_cells(int x, int y) { return AdjacentEightCells { x, y }; }
 auto adjacent_eight_cells(int x, int y, int xl, int xr, int yl, int yr) { return AdjacentEightCellsBounded { x, y, xl, xr, yl, yr }; }
 // [ {nx:=x+dx8[i], ny:=y+dy8[i]} for i in range(8) if 0 <=nx<xr and 0 <=ny<yr ]
 auto adjacent_eight_cells(int x, int y,         int xr,         int yr) { return AdjacentEightCellsBounded { x, y, 0 , xr, 0 , yr }; }
+
+#endif // SUISEN_GRID_UTILS
diff --git a/library/util/search.hpp b/library/util/search.hpp
index eacd2c8..08ba03e 100644
--- a/library/util/search.hpp
+++ b/library/util/search.hpp
@@ -1,3 +1,6 @@
+#ifndef SUISEN_SEARCH
+#define SUISEN_SEARCH
+
 #include <cassert>
 #include <cstdint>
 #include <functional>
@@ -123,3 +126,5 @@ namespace suisen {
         return r_ok;
     }
 } // namespace suisen
+
+#endif // SUISEN_SEARCH
-- 
2.43.0


From 922a716e2992e5e1eece21f1665d9b58c63c5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:28 +0000
Subject: [PATCH 155/183] fix: ConvexHullInclusion handles mixed signed and
 unsigned coordinate types

---
 .../integral_geom/convex_hull_inclusion.hpp   | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/library/integral_geom/convex_hull_inclusion.hpp b/library/integral_geom/convex_hull_inclusion.hpp
index b71e4fd..fe7f07a 100644
--- a/library/integral_geom/convex_hull_inclusion.hpp
+++ b/library/integral_geom/convex_hull_inclusion.hpp
@@ -47,12 +47,18 @@ namespace suisen::integral_geometry {
         static_assert(std::is_integral_v<Y_type>);
 
         using Int = std::make_signed_t<LargerInt<X_type, Y_type>>;
+        // holds negated coordinates as well, so both of them must be signed
+        using IntPoint = std::pair<Int, Int>;
     public:
         ConvexHullInclusion() = default;
 
         // O(n)
-        ConvexHullInclusion(std::vector<Point> ccw_convex_hull) {
-            assert(not ccw_convex_hull.empty());
+        ConvexHullInclusion(const std::vector<Point>& points) {
+            assert(not points.empty());
+
+            std::vector<IntPoint> ccw_convex_hull;
+            ccw_convex_hull.reserve(points.size());
+            for (const auto& p : points) ccw_convex_hull.emplace_back(std::get<0>(p), std::get<1>(p));
 
             // Remove duplicates
             ccw_convex_hull.erase(std::unique(ccw_convex_hull.begin(), ccw_convex_hull.end()), ccw_convex_hull.end());
@@ -60,7 +66,7 @@ namespace suisen::integral_geometry {
                 ccw_convex_hull.pop_back();
             }
 
-            auto compare = [&](const Point& p, const Point& q) {
+            auto compare = [&](const IntPoint& p, const IntPoint& q) {
                 Int px = get_x(p), py = get_y(p);
                 Int qx = get_x(q), qy = get_y(q);
                 return px != qx ? px < qx : py < qy;
@@ -79,13 +85,13 @@ namespace suisen::integral_geometry {
                 _lo1 = { *it_min, *it_max };
                 _lo2 = { *it_max, *it_min };
             } else {
-                _lo1 = std::vector<Point>(it_min, it_max);
+                _lo1 = std::vector<IntPoint>(it_min, it_max);
                 while (_lo1.size() >= 2 and get_x(_lo1.end()[-2]) == get_x(_lo1.end()[-1])) {
                     _lo1.pop_back();
                 }
                 _lo1.push_back(*it_max);
 
-                _lo2 = std::vector<Point>(it_max, ccw_convex_hull.end());
+                _lo2 = std::vector<IntPoint>(it_max, ccw_convex_hull.end());
                 while (_lo2.size() >= 2 and get_x(_lo2.end()[-2]) == get_x(_lo2.end()[-1])) {
                     _lo2.pop_back();
                 }
@@ -120,12 +126,12 @@ namespace suisen::integral_geometry {
         }
     private:
         Int _xmin, _xmax;
-        std::vector<Point> _lo1, _lo2;
+        std::vector<IntPoint> _lo1, _lo2;
 
-        static Int get_x(const Point& p) {
+        static Int get_x(const IntPoint& p) {
             return std::get<0>(p);
         }
-        static Int get_y(const Point& p) {
+        static Int get_y(const IntPoint& p) {
             return std::get<1>(p);
         }
 
@@ -133,7 +139,7 @@ namespace suisen::integral_geometry {
             ABOVE, ON, BELOW
         };
 
-        static Position get_pos(const std::vector<Point>& lower_ch, Int x, Int y) {
+        static Position get_pos(const std::vector<IntPoint>& lower_ch, Int x, Int y) {
             // point (x, y) is (above / on / below)? lower_ch
 
             using MInt = std::conditional_t<bit_num<Int> <= 32, int64_t, __int128_t>;
@@ -148,7 +154,7 @@ namespace suisen::integral_geometry {
                 Int yt = get_y(lower_ch.front());
                 return y < yt ? Position::BELOW : y > yt ? Position::ABOVE : Position::ON;
             } else {
-                auto compare_x = [](const Point& p, const Int& x) {
+                auto compare_x = [](const IntPoint& p, const Int& x) {
                     return get_x(p) < x;
                 };
                 // it1 > begin() since xmin < x.
-- 
2.43.0


From e1b94a9418766472a619b3a39a99165cfd03946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:19 +0000
Subject: [PATCH 156/183] fix: convex_hull of no points is empty

---
 library/geom/convex_hull.hpp          | 1 +
 library/integral_geom/convex_hull.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/library/geom/convex_hull.hpp b/library/geom/convex_hull.hpp
index 6cd809d..604147f 100644
--- a/library/geom/convex_hull.hpp
+++ b/library/geom/convex_hull.hpp
@@ -16,6 +16,7 @@ namespace geometry {
             return a.real() == b.real() ? a.imag() < b.imag() : a.real() < b.real();
         });
         std::vector<char> used(n, false);
+        if (n == 0) return {};
         sorted.resize(2 * n - 1);
         std::copy(sorted.rbegin() + n, sorted.rend(), sorted.begin() + n);
         std::vector<int> res;
diff --git a/library/integral_geom/convex_hull.hpp b/library/integral_geom/convex_hull.hpp
index d15556f..01c6943 100644
--- a/library/integral_geom/convex_hull.hpp
+++ b/library/integral_geom/convex_hull.hpp
@@ -17,6 +17,7 @@ namespace suisen::integral_geometry {
             return xi == xj ? yi < yj : xi < xj;
         });
         std::vector<int8_t> used(n, false);
+        if (n == 0) return {};
         sorted.resize(2 * n - 1);
         std::copy(sorted.rbegin() + n, sorted.rend(), sorted.begin() + n);
         std::vector<int> res;
-- 
2.43.0


From f7ca9f10f8d4e957dd192356df9f8445347f10db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:49 +0000
Subject: [PATCH 157/183] fix: BezoutEquationSolution::count reports infinitely
 many solutions of 0x + 0y = 0 as such

---
 library/number/bezout_equation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index d8ff47c..8b1addc 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -78,6 +78,7 @@ namespace suisen {
             if (t == SolutionType::None) {
                 return 0;
             } else if (t == SolutionType::Arbitrary) {
+                if (kxmin == neginf or kxmax == posinf or kymin == neginf or kymax == posinf) return std::nullopt;
                 return T(kxmax - kxmin + 1) * T(kymax - kymin + 1);
             } else {
                 auto k_range = get_k_range();
-- 
2.43.0


From 1a73d707ebc2a3eccf18ad4bb61f192f6588dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:09 +0000
Subject: [PATCH 158/183] fix: BinaryTrie::to_string prints values of 32 and
 more bits

---
 library/datastructure/binary_trie.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index 4dce48e..88f8a28 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -41,11 +41,11 @@ class BinaryTrie {
             auto pref1 = pref0 + std::string(zo[0].size(), ' ');
             if (is_absent(0) or is_absent(1)) {
                 bool b = is_absent(0);
-                return res + zo[b] + ch[b]->to_string(k - 1, val | (b << k), pref1);
+                return res + zo[b] + ch[b]->to_string(k - 1, val | (U(b) << k), pref1);
             }
             res += zo[0] + ch[0]->to_string(k - 1, val, prefb);
             res += pref0 + "|\n";
-            res += pref0 + zo[1] + ch[1]->to_string(k - 1, val | (1 << k), pref1);
+            res += pref0 + zo[1] + ch[1]->to_string(k - 1, val | (U(1) << k), pref1);
             return res;
         }
     };
-- 
2.43.0


From 2d8b21c9de9ff8d41db7eb872c38133fd00b391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:53 +0000
Subject: [PATCH 159/183] fix: OrderMod computes orders of elements and moduli
 of 64 bits

---
 library/number/order_Z_mZ.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 8d2d9aa..8427d46 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -15,7 +15,7 @@ namespace suisen {
             static void set_mod(uint64_t new_mod) { mint64<id>::_mod = new_mod; }
 
             mint64() : _val(0) {}
-            mint64(long long val) : _val(safe_mod(val)) {}
+            mint64(uint64_t val) : _val(val % _mod) {}
 
             uint64_t val() { return _val; }
 
@@ -27,8 +27,7 @@ namespace suisen {
                 x *= y;
                 return x;
             }
-            mint64 pow(long long b) const {
-                assert(b >= 0);
+            mint64 pow(uint64_t b) const {
                 mint64 p = *this, res = 1;
                 for (; b; b >>= 1) {
                     if (b & 1) res *= p;
@@ -39,8 +38,6 @@ namespace suisen {
         private:
             static inline uint64_t _mod;
             uint64_t _val;
-
-            static uint64_t safe_mod(long long val) { return (val %= _mod) < 0 ? val + _mod : val; }
         };
     }
 
-- 
2.43.0


From 24ee26b8070230540404891bbd33220f7e878de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:54 +0000
Subject: [PATCH 160/183] fix: OrderMod::is_primitive_root is false for
 elements that are not units

---
 library/number/order_Z_mZ.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 8427d46..e5d658d 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_ORDER_Z_mZ
 
 #include <map>
+#include <numeric>
 #include <tuple>
 
 #include <atcoder/modint>
@@ -149,8 +150,8 @@ namespace suisen {
 
         template <typename mint>
         bool _is_primitive_root_impl(U a) const {
-            if (_lambda != _phi) return false;
-            if (_mod == 2) return a % 2 == 1;
+            if (_lambda != _phi or std::gcd(a, _mod) != 1) return false;
+            if (_mod == 2) return true;
 
             const int k = _fac_lambda.size();
             U x = _lambda;
-- 
2.43.0


From e8d659c53e5d2619f07e4a812e7f8a81874e25d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:08 +0000
Subject: [PATCH 161/183] fix: all_subset enumerates the subsets of a set that
 uses every bit of its type

---
 library/util/subset_iterator.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/library/util/subset_iterator.hpp b/library/util/subset_iterator.hpp
index 81fbe04..47997a7 100644
--- a/library/util/subset_iterator.hpp
+++ b/library/util/subset_iterator.hpp
@@ -16,11 +16,14 @@ namespace suisen {
     template <typename T, std::enable_if_t<std::is_integral_v<T>, std::nullptr_t> = nullptr>
     struct all_subset {
         struct all_subset_iter {
-            const T s; T t;
-            constexpr all_subset_iter(T s) : s(s), t(s + 1) {}
+            const T s; T t; bool done;
+            constexpr all_subset_iter(T s) : s(s), t(s), done(false) {}
             constexpr auto operator*() const { return t; }
-            constexpr auto operator++() {}
-            constexpr auto operator!=(std::nullptr_t) { return t ? (--t &= s, true) : false; }
+            constexpr auto operator++() {
+                if (t) t = (t - 1) & s;
+                else done = true;
+            }
+            constexpr auto operator!=(std::nullptr_t) const { return not done; }
         };
         T s;
         constexpr all_subset(T s) : s(s) {}
-- 
2.43.0


From 22d00b4a3a2b774bbea1d27156cadf87db7a52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:01 +0000
Subject: [PATCH 162/183] fix: searches work on ranges wider than the largest
 value of the type and up to it

---
 library/util/search.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/library/util/search.hpp b/library/util/search.hpp
index 08ba03e..c787b56 100644
--- a/library/util/search.hpp
+++ b/library/util/search.hpp
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <cstdint>
 #include <functional>
+#include <limits>
 #include <type_traits>
 
 namespace suisen {
@@ -44,14 +45,17 @@ namespace suisen {
     Arg ternary_search_key(Arg l, Arg r, const Fun &f) {
         assert(l <= r);
         const auto compare = std::conditional_t<tag == ternary_search_tag::Convex, std::greater<>, std::less<>>{};
-        while (r - l >= 3) {
-            const Arg ml = l + (r - l) / 3, mr = r - (r - l) / 3;
+        // r - l may not be representable in Arg
+        using width_type = std::make_unsigned_t<Arg>;
+        for (width_type w; (w = width_type(r) - width_type(l)) >= 3;) {
+            const Arg ml = l + Arg(w / 3), mr = r - Arg(w / 3);
             if (compare(f(ml), f(mr))) l = ml;
             else r = mr;
         }
         Arg x = l;
         auto fx = f(x);
-        for (Arg y = l + 1; y <= r; ++y) {
+        for (Arg y = l; y < r;) {
+            ++y;
             if (auto fy = f(y); compare(fx, fy)) x = y, fx = fy;
         }
         return x;
@@ -99,8 +103,10 @@ namespace suisen {
         assert(l_ng <= r_ok);
         assert(not f(l_ng));
         assert(f(r_ok));
-        while ((r_ok - l_ng) > 1) {
-            Arg m = l_ng + ((r_ok - l_ng) >> 1);
+        // r_ok - l_ng may not be representable in Arg
+        using width_type = std::make_unsigned_t<Arg>;
+        for (width_type w; (w = width_type(r_ok) - width_type(l_ng)) > 1;) {
+            Arg m = l_ng + Arg(w >> 1);
             (f(m) ? r_ok : l_ng) = m;
         }
         return r_ok;
@@ -116,9 +122,12 @@ namespace suisen {
         std::enable_if_t<std::conjunction_v<std::is_invocable_r<bool, Fun, Arg>, std::is_integral<Arg>>, std::nullptr_t> = nullptr>
     Arg binary_search_exponential(Arg l_ng, const Fun &f) {
         assert(not f(l_ng));
-        Arg w = 1;
-        while (not f(l_ng + w)) w <<= 1;
-        Arg r_ok = l_ng + w;
+        constexpr Arg max = std::numeric_limits<Arg>::max();
+        Arg w = 1, r_ok;
+        while (not f(r_ok = l_ng <= max - w ? l_ng + w : max)) {
+            l_ng = r_ok;
+            if (w <= max / 2) w <<= 1;
+        }
         while ((r_ok - l_ng) > 1) {
             Arg m = l_ng + ((r_ok - l_ng) >> 1);
             (f(m) ? r_ok : l_ng) = m;
-- 
2.43.0


From 597b12923e8fd6511da690a0346f248d4340bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:59 +0000
Subject: [PATCH 163/183] fix: sum_count computes in the result type

---
 library/util/sum_count.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/util/sum_count.hpp b/library/util/sum_count.hpp
index c3bee91..ccc98a3 100644
--- a/library/util/sum_count.hpp
+++ b/library/util/sum_count.hpp
@@ -8,14 +8,14 @@ namespace suisen {
     template <typename T, typename R = T>
     constexpr R sum_count(T min_a, T max_a, T min_b, T max_b, T sum) {
         // max(min_a, sum - max_b) <= a <= min(max_a, x - min_b)
-        return std::max<R>(0, std::min<R>(max_a, sum - min_b) - std::max<R>(min_a, sum - max_b) + 1);
+        return std::max<R>(0, std::min<R>(max_a, R(sum) - R(min_b)) - std::max<R>(min_a, R(sum) - R(max_b)) + 1);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b<=max_sum)
     template <typename T, typename R = T>
     constexpr R sum_count_leq(T min_a, T max_a, T min_b, T max_b, T max_sum) {
         // count # of (a,b) s.t. 0<=a<=ra and 0<=b<=rb and a+b<=rs
-        const R ra = R(max_a) - R(min_a), rb = R(max_b) - R(min_b), rs = R(max_sum) - R(min_a + min_b);
+        const R ra = R(max_a) - R(min_a), rb = R(max_b) - R(min_b), rs = R(max_sum) - (R(min_a) + R(min_b));
         if (ra < 0 or rb < 0 or rs < 0) {
             return 0;
         }
@@ -30,7 +30,7 @@ namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b<x)
     template <typename T, typename R = T>
     constexpr R sum_count_lt(T min_a, T max_a, T min_b, T max_b, T x) {
-        return sum_count_leq<T, R>(min_a, max_a, min_b, max_b, x - 1);
+        return sum_count_leq<R, R>(min_a, max_a, min_b, max_b, R(x) - 1);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b>=min_sum)
-- 
2.43.0


From 47a8d39ec40f052ac5d2832f4e7d12d044ed2159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:13 +0000
Subject: [PATCH 164/183] fix: BinaryTrie and BinaryTriePatricia can be copied
 and assigned

---
 library/datastructure/binary_trie.hpp          | 13 ++++++++++++-
 library/datastructure/binary_trie_patricia.hpp | 10 ++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index 88f8a28..6586d7d 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -5,6 +5,7 @@
 #include <limits>
 #include <optional>
 #include <string>
+#include <utility>
 #include <vector>
 
 namespace suisen {
@@ -15,6 +16,10 @@ class BinaryTrie {
         int siz;
         Node *ch[2] {nullptr, nullptr};
         Node() : siz(0) {}
+        Node(const Node &other) : siz(other.siz) {
+            for (int b = 0; b < 2; ++b) if (other.ch[b]) ch[b] = new Node(*other.ch[b]);
+        }
+        Node& operator=(const Node &) = delete;
         ~Node() {
             delete ch[0];
             delete ch[1];
@@ -51,6 +56,12 @@ class BinaryTrie {
     };
     public:
         BinaryTrie() : root(new Node) {}
+        BinaryTrie(const BinaryTrie &other) : root(new Node(*other.root)) {}
+        BinaryTrie(BinaryTrie &&other) : BinaryTrie() { std::swap(root, other.root); }
+        BinaryTrie& operator=(BinaryTrie other) {
+            std::swap(root, other.root);
+            return *this;
+        }
         ~BinaryTrie() { delete root; }
 
         inline int size() const noexcept { return Node::size(root); }
@@ -143,7 +154,7 @@ class BinaryTrie {
         inline std::string to_string() const noexcept { return root->to_string(); }
         friend std::ostream& operator<<(std::ostream& out, const BinaryTrie &bt) { return out << bt.to_string(); }
     private:
-        Node *const root;
+        Node *root;
         static constexpr bool bit(const U val, const int i) noexcept {
             return (val >> i) & 1;
         }
diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 9e12640..802bb2c 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -42,6 +42,10 @@ namespace suisen {
             node_pointer_type ch[ary]{};
 
             Node(const unsigned_value_type& val, uint32_t len, internal_size_type siz) : val(val), len(len), siz(siz) {}
+            Node(const Node& other) : Node(other.val, other.len, other.siz) {
+                for (uint32_t i = 0; i < ary; ++i) if (other.ch[i]) ch[i] = new node_type(*other.ch[i]);
+            }
+            Node& operator=(const Node&) = delete;
             ~Node() {
                 for (uint32_t i = 0; i < ary; ++i) delete ch[i];
             }
@@ -52,6 +56,12 @@ namespace suisen {
         };
 
         BinaryTriePatricia() = default;
+        BinaryTriePatricia(const BinaryTriePatricia& other) : _root(new node_type(*other._root)) {}
+        BinaryTriePatricia(BinaryTriePatricia&& other) : BinaryTriePatricia() { std::swap(_root, other._root); }
+        BinaryTriePatricia& operator=(BinaryTriePatricia other) {
+            std::swap(_root, other._root);
+            return *this;
+        }
         ~BinaryTriePatricia() {
             delete _root;
         }
-- 
2.43.0


From 491a281c0f8749fcfead322d8c6a6495753538aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:38 +0000
Subject: [PATCH 165/183] fix: the contour structures can be copied: their
 nodes hold a count instead of an iterator into the object

---
 library/tree/contour_sum.hpp                           |  8 ++++----
 library/tree/point_add_range_contour_sum.hpp           | 10 +++++-----
 .../tree/point_add_range_contour_sum_invertible.hpp    | 10 +++++-----
 .../tree/point_get_range_contour_add_invertible.hpp    | 10 +++++-----
 library/tree/point_get_range_contour_operate.hpp       | 10 +++++-----
 library/tree/range_contour_sum_invertible.hpp          |  8 ++++----
 6 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/library/tree/contour_sum.hpp b/library/tree/contour_sum.hpp
index c27ef4f..71c65dc 100644
--- a/library/tree/contour_sum.hpp
+++ b/library/tree/contour_sum.hpp
@@ -26,7 +26,7 @@ namespace suisen {
 
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num = 0;
             value_type dat;
         };
     public:
@@ -96,7 +96,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) *dat_it++ = std::exchange(sum, _zero()), nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, int(dat_it - dat.begin()) };
+                        _info[u][node.info_num++] = { child_index, int(dat_it - dat.begin()) };
                         sum = _add(sum, node.dat);
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
@@ -145,7 +145,7 @@ namespace suisen {
             res = _add(res, get(_subtrees[u][0], d - 1));
             res = _add(res, get(_subtrees[u][1], d - 1));
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 int q = d - it->dist - 1;
                 if (v < _n and q == 0) res = _add(res, _nodes[v].dat);
@@ -176,7 +176,7 @@ namespace suisen {
             std::vector<TreeNode> tmp(_n);
             for (int i = 0; i < _n; ++i) {
                 for (int& e : _nodes[i].adj) e = _ord[e];
-                _nodes[i].info_it = _info[_ord[i]].begin();
+                _nodes[i].info_num = 0;
                 tmp[_ord[i]] = std::move(_nodes[i]);
             }
             _nodes.swap(tmp);
diff --git a/library/tree/point_add_range_contour_sum.hpp b/library/tree/point_add_range_contour_sum.hpp
index 1fe7e08..1471c20 100644
--- a/library/tree/point_add_range_contour_sum.hpp
+++ b/library/tree/point_add_range_contour_sum.hpp
@@ -48,7 +48,7 @@ namespace suisen {
 
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num = 0;
             value_type dat;
         };
     public:
@@ -118,7 +118,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) *dat_it++ = std::exchange(sum, e()), nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, int(dat_it - dat.begin()) };
+                        _info[u][node.info_num++] = { child_index, int(dat_it - dat.begin()) };
                         sum = op(sum, node.dat);
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
@@ -170,7 +170,7 @@ namespace suisen {
             u = _ord[u];
             _nodes[u].dat = op(_nodes[u].dat, val);
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) _subtrees[std::exchange(v, _par[v])][it->child_index].add(it->dep, val);
         }
         // O((logN)^2)
@@ -180,7 +180,7 @@ namespace suisen {
             res = op(res, _subtrees[u][0].sum(dl - 1, dr - 1));
             res = op(res, _subtrees[u][1].sum(dl - 1, dr - 1));
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 const int ql = dl - it->dep - 1, qr = dr - it->dep - 1;
                 if (v < _n and ql <= 0 and 0 < qr) res = op(res, _nodes[v].dat);
@@ -211,7 +211,7 @@ namespace suisen {
             std::vector<TreeNode> tmp(_n);
             for (int i = 0; i < _n; ++i) {
                 for (int& elm : _nodes[i].adj) elm = _ord[elm];
-                _nodes[i].info_it = _info[_ord[i]].begin();
+                _nodes[i].info_num = 0;
                 tmp[_ord[i]] = std::move(_nodes[i]);
             }
             _nodes.swap(tmp);
diff --git a/library/tree/point_add_range_contour_sum_invertible.hpp b/library/tree/point_add_range_contour_sum_invertible.hpp
index 2859c96..7dd0bc2 100644
--- a/library/tree/point_add_range_contour_sum_invertible.hpp
+++ b/library/tree/point_add_range_contour_sum_invertible.hpp
@@ -53,7 +53,7 @@ namespace suisen {
 
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num = 0;
             value_type dat;
         };
     public:
@@ -123,7 +123,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) *dat_it++ = std::exchange(sum, _zero()), nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, int(dat_it - dat.begin()) };
+                        _info[u][node.info_num++] = { child_index, int(dat_it - dat.begin()) };
                         sum = _add(sum, node.dat);
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
@@ -175,7 +175,7 @@ namespace suisen {
             u = _ord[u];
             _nodes[u].dat = _add(_nodes[u].dat, val);
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) _subtrees[std::exchange(v, _par[v])][it->child_index].add(it->dep, val);
         }
         // O((logN)^2)
@@ -189,7 +189,7 @@ namespace suisen {
             res = _add(res, _subtrees[u][0].sum(dl - 1, dr - 1));
             res = _add(res, _subtrees[u][1].sum(dl - 1, dr - 1));
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 const int ql = dl - it->dep - 1, qr = dr - it->dep - 1;
                 if (v < _n and ql <= 0 and 0 < qr) res = _add(res, _nodes[v].dat);
@@ -220,7 +220,7 @@ namespace suisen {
             std::vector<TreeNode> tmp(_n);
             for (int i = 0; i < _n; ++i) {
                 for (int& e : _nodes[i].adj) e = _ord[e];
-                _nodes[i].info_it = _info[_ord[i]].begin();
+                _nodes[i].info_num = 0;
                 tmp[_ord[i]] = std::move(_nodes[i]);
             }
             _nodes.swap(tmp);
diff --git a/library/tree/point_get_range_contour_add_invertible.hpp b/library/tree/point_get_range_contour_add_invertible.hpp
index 27e224b..36fd643 100644
--- a/library/tree/point_get_range_contour_add_invertible.hpp
+++ b/library/tree/point_get_range_contour_add_invertible.hpp
@@ -48,7 +48,7 @@ namespace suisen {
 
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num = 0;
         };
     public:
         PointGetRangeContourAddOnTree(int n = 0) : _n(n), _dat(_n), _nodes(_n), _par(2 * _n, -1), _info(_n), _subtrees(2 * _n), _ord(_n, -1) {}
@@ -109,7 +109,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) ++dep, nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, dep };
+                        _info[u][node.info_num++] = { child_index, dep };
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
                             if (nxt < 0) nxt = v;
@@ -154,7 +154,7 @@ namespace suisen {
             u = _ord[u];
             value_type res = _dat[u];
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) res = mapping(_subtrees[std::exchange(v, _par[v])][it->child_index].get(it->dep), res);
             return res;
         }
@@ -170,7 +170,7 @@ namespace suisen {
             _subtrees[u][0].apply(dl - 1, dr - 1, f);
             _subtrees[u][1].apply(dl - 1, dr - 1, f);
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 int ql = dl - it->dep - 1, qr = dr - it->dep - 1;
                 if (v < _n and ql <= 0 and 0 < qr) _dat[v] = mapping(f, _dat[v]);
@@ -201,7 +201,7 @@ namespace suisen {
             std::vector<TreeNode> tmp(_n);
             for (int i = 0; i < _n; ++i) {
                 for (int& e : _nodes[i].adj) e = _ord[e];
-                _nodes[i].info_it = _info[_ord[i]].begin();
+                _nodes[i].info_num = 0;
                 tmp[_ord[i]] = std::move(_nodes[i]);
                 _dat[_ord[i]] = a[i];
             }
diff --git a/library/tree/point_get_range_contour_operate.hpp b/library/tree/point_get_range_contour_operate.hpp
index 89066d3..3b4d8e0 100644
--- a/library/tree/point_get_range_contour_operate.hpp
+++ b/library/tree/point_get_range_contour_operate.hpp
@@ -45,7 +45,7 @@ namespace suisen {
 
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num = 0;
         };
     public:
         PointGetRangeContourOperate(int n = 0) : _n(n), _dat(_n), _nodes(_n), _par(2 * _n, -1), _info(_n), _subtrees(2 * _n) {}
@@ -56,7 +56,7 @@ namespace suisen {
         }
         // O(NlogN)
         void build(const std::vector<value_type>& a) {
-            for (int i = 0; i < _n; ++i) _dat[i] = a[i], _nodes[i].info_it = _info[i].begin();
+            for (int i = 0; i < _n; ++i) _dat[i] = a[i], _nodes[i].info_num = 0;
 
             int new_node = _n;
             std::vector<int> sub_size(2 * _n, 0);
@@ -105,7 +105,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) ++dep, nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, dep };
+                        _info[u][node.info_num++] = { child_index, dep };
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
                             if (nxt < 0) nxt = v;
@@ -149,7 +149,7 @@ namespace suisen {
         value_type get(int u) const {
             value_type res = _dat[u];
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) res = mapping(_subtrees[std::exchange(v, _par[v])][it->child_index].get(it->dep), res);
             return res;
         }
@@ -163,7 +163,7 @@ namespace suisen {
             _subtrees[u][0].apply(dl - 1, dr - 1, f);
             _subtrees[u][1].apply(dl - 1, dr - 1, f);
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 int ql = dl - it->dep - 1, qr = dr - it->dep - 1;
                 if (v < _n and ql <= 0 and 0 < qr) _dat[v] = mapping(f, _dat[v]);
diff --git a/library/tree/range_contour_sum_invertible.hpp b/library/tree/range_contour_sum_invertible.hpp
index 289d5ec..1d5a7ae 100644
--- a/library/tree/range_contour_sum_invertible.hpp
+++ b/library/tree/range_contour_sum_invertible.hpp
@@ -42,7 +42,7 @@ namespace suisen {
  
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num = 0;
             value_type dat;
         };
     public:
@@ -111,7 +111,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) *dat_it++ = std::exchange(sum, _zero()), nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, int(dat_it - dat.begin()) };
+                        _info[u][node.info_num++] = { child_index, int(dat_it - dat.begin()) };
                         sum = _add(sum, node.dat);
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
@@ -159,7 +159,7 @@ namespace suisen {
             res = _add(res, _subtrees[u][0].sum(dl - 1, dr - 1));
             res = _add(res, _subtrees[u][1].sum(dl - 1, dr - 1));
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 int ql = dl - it->dist - 2, qr = dr - it->dist - 2;
                 if (v < _n and ql <= -1 and -1 < qr) res = _add(res, _nodes[v].dat);
@@ -190,7 +190,7 @@ namespace suisen {
             std::vector<TreeNode> tmp(_n);
             for (int i = 0; i < _n; ++i) {
                 for (int& e : _nodes[i].adj) e = _ord[e];
-                _nodes[i].info_it = _info[_ord[i]].begin();
+                _nodes[i].info_num = 0;
                 tmp[_ord[i]] = std::move(_nodes[i]);
             }
             _nodes.swap(tmp);
-- 
2.43.0


From bb8d8e5a5b706ec355121cdb8dac4a318cb63c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:38 +0000
Subject: [PATCH 166/183] fix: OrderMod works for modulus 1

---
 library/number/order_Z_mZ.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index e5d658d..2456502 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -151,7 +151,7 @@ namespace suisen {
         template <typename mint>
         bool _is_primitive_root_impl(U a) const {
             if (_lambda != _phi or std::gcd(a, _mod) != 1) return false;
-            if (_mod == 2) return true;
+            if (_mod <= 2) return true;
 
             const int k = _fac_lambda.size();
             U x = _lambda;
@@ -188,7 +188,7 @@ namespace suisen {
 
         template <typename Rng>
         T _primitive_root_impl() const {
-            if (_mod == 2) return 1;
+            if (_mod <= 2) return _mod - 1;
 
             Rng rng{ std::random_device{}() };
             while (true) {
@@ -202,7 +202,7 @@ namespace suisen {
 
         template <typename mint>
         U _order_impl(U a) const {
-            if (_mod == 2) return a % 2 == 1;
+            if (_mod <= 2) return _mod == 1 or a % 2 == 1;
 
             const int k = _fac_lambda.size();
 
-- 
2.43.0


From bdacbb5141051e47aba3c19c2a7b161630ef4c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:38 +0000
Subject: [PATCH 167/183] fix: offline dynamic connectivity keeps its active
 edges when answer() is called

---
 library/algorithm/offline_dynamic_connectivity.hpp        | 8 +++-----
 .../offline_dynamic_connectivity_component_sum.hpp        | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/library/algorithm/offline_dynamic_connectivity.hpp b/library/algorithm/offline_dynamic_connectivity.hpp
index c45b0a6..8308dcf 100644
--- a/library/algorithm/offline_dynamic_connectivity.hpp
+++ b/library/algorithm/offline_dynamic_connectivity.hpp
@@ -26,13 +26,11 @@ namespace suisen {
 
         std::vector<bool> answer() {
             const int q = _connectivity_queries.size();
-            for (auto it = _active.begin(); it != _active.end(); it = _active.erase(it)) {
-                const auto &[u, v] = it->first;
-                _active_range.emplace_back(u, v, it->second, q);
-            }
+            auto ranges = _active_range;
+            for (const auto &[edge, l] : _active) ranges.emplace_back(edge.first, edge.second, l, q);
             if (not q) return {};
             std::vector<std::vector<std::pair<int, int>>> seg(2 * q);
-            for (auto [u, v, l, r] : _active_range) {
+            for (auto [u, v, l, r] : ranges) {
                 for (l += q, r += q; l < r; l >>= 1, r >>= 1) {
                     if (l & 1) seg[l++].emplace_back(u, v);
                     if (r & 1) seg[--r].emplace_back(u, v);
diff --git a/library/algorithm/offline_dynamic_connectivity_component_sum.hpp b/library/algorithm/offline_dynamic_connectivity_component_sum.hpp
index ed53aaa..24480d1 100644
--- a/library/algorithm/offline_dynamic_connectivity_component_sum.hpp
+++ b/library/algorithm/offline_dynamic_connectivity_component_sum.hpp
@@ -35,13 +35,11 @@ namespace suisen {
         template <typename T, void(*merge_data)(T&, const T&), void(*undo_data)(T&), typename U, U(*get_value)(const T&)>
         std::vector<std::variant<bool, U>> answer(const std::vector<T> &init_values) {
             const int q = _get_queries.size();
-            for (auto it = _active.begin(); it != _active.end(); it = _active.erase(it)) {
-                const auto &[u, v] = it->first;
-                _active_range.emplace_back(u, v, it->second, q);
-            }
+            auto ranges = _active_range;
+            for (const auto &[edge, l] : _active) ranges.emplace_back(edge.first, edge.second, l, q);
             if (not q) return {};
             std::vector<std::vector<std::pair<int, int>>> seg(2 * q);
-            for (auto [u, v, l, r] : _active_range) {
+            for (auto [u, v, l, r] : ranges) {
                 for (l += q, r += q; l < r; l >>= 1, r >>= 1) {
                     if (l & 1) seg[l++].emplace_back(u, v);
                     if (r & 1) seg[--r].emplace_back(u, v);
-- 
2.43.0


From e0da9e89c9130b6d40ecc8d5d04681d6b0a0a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:49 +0000
Subject: [PATCH 168/183] fix: csr_graph: inserting copies of a list's own
 element

---
 library/graph/csr_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/graph/csr_graph.hpp b/library/graph/csr_graph.hpp
index d716d3c..c92cd2e 100644
--- a/library/graph/csr_graph.hpp
+++ b/library/graph/csr_graph.hpp
@@ -113,7 +113,8 @@ namespace suisen {
             void insert(const_iterator pos, int num, const value_type& x) {
                 const int k = pos - cbegin();
                 assert(0 <= k and k <= _siz);
-                std::fill(begin() + k, shift_back(begin() + k, num), x);
+                const value_type v = x;
+                std::fill(begin() + k, shift_back(begin() + k, num), v);
             }
             template <class RandomAccessIterator>
             auto insert(const_iterator pos, RandomAccessIterator first, RandomAccessIterator last) -> decltype(*first++, last - first, void()) {
-- 
2.43.0


From 16216f34433bba7ecb8372073a334dd20ebb16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:49 +0000
Subject: [PATCH 169/183] fix: multiplying a series or matrix by its own
 element, appending a set power series to itself

---
 library/linear_algebra/array_matrix.hpp    | 2 +-
 library/linear_algebra/matrix.hpp          | 2 +-
 library/math/array_set_power_series.hpp    | 6 ++++--
 library/math/set_power_series.hpp          | 6 ++++--
 library/polynomial/formal_power_series.hpp | 2 +-
 library/polynomial/fps.hpp                 | 2 +-
 6 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/library/linear_algebra/array_matrix.hpp b/library/linear_algebra/array_matrix.hpp
index f07e37a..7473bb1 100644
--- a/library/linear_algebra/array_matrix.hpp
+++ b/library/linear_algebra/array_matrix.hpp
@@ -67,7 +67,7 @@ namespace suisen {
         }
         template <size_t K>
         friend MatrixType<N, K>& operator*=(ArrayMatrix& A, const MatrixType<M, K>& B) { return A = A * B; }
-        friend ArrayMatrix& operator*=(ArrayMatrix& A, const T& val) {
+        friend ArrayMatrix& operator*=(ArrayMatrix& A, const T val) {
             for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) A[i][j] = _mul(A[i][j], val);
             return A;
         }
diff --git a/library/linear_algebra/matrix.hpp b/library/linear_algebra/matrix.hpp
index 2d77da2..b679c69 100644
--- a/library/linear_algebra/matrix.hpp
+++ b/library/linear_algebra/matrix.hpp
@@ -41,7 +41,7 @@ namespace suisen {
             return A;
         }
         friend Matrix<T>& operator*=(Matrix<T>& A, const Matrix<T>& B) { return A = A * B; }
-        friend Matrix<T>& operator*=(Matrix<T>& A, const T& val) {
+        friend Matrix<T>& operator*=(Matrix<T>& A, const T val) {
             for (auto& row : A.dat) for (auto& elm : row) elm *= val;
             return A;
         }
diff --git a/library/math/array_set_power_series.hpp b/library/math/array_set_power_series.hpp
index 7d72be9..d162415 100644
--- a/library/math/array_set_power_series.hpp
+++ b/library/math/array_set_power_series.hpp
@@ -46,7 +46,9 @@ namespace suisen {
 
         void concat(const ArraySetPowerSeries& upper) {
             assert(this->size() == upper.size());
-            this->insert(this->end(), upper.begin(), upper.end());
+            const size_type n = this->size();
+            this->resize(2 * n);
+            for (size_type i = 0; i < n; ++i) (*this)[n + i] = upper[i];
         }
 
         ArraySetPowerSeries operator+() const {
@@ -68,7 +70,7 @@ namespace suisen {
         ArraySetPowerSeries& operator*=(const ArraySetPowerSeries& g) {
             return *this = (zeta() *= g).mobius_inplace();
         }
-        ArraySetPowerSeries& operator*=(const value_type& c) {
+        ArraySetPowerSeries& operator*=(const value_type c) {
             for (auto& e : *this) e *= c;
             return *this;
         }
diff --git a/library/math/set_power_series.hpp b/library/math/set_power_series.hpp
index 20362f6..9a3a9a8 100644
--- a/library/math/set_power_series.hpp
+++ b/library/math/set_power_series.hpp
@@ -46,7 +46,9 @@ namespace suisen {
 
         void concat(const SetPowerSeries& upper) {
             assert(this->size() == upper.size());
-            this->insert(this->end(), upper.begin(), upper.end());
+            const size_type n = this->size();
+            this->resize(2 * n);
+            for (size_type i = 0; i < n; ++i) (*this)[n + i] = upper[i];
         }
 
         SetPowerSeries operator+() const {
@@ -68,7 +70,7 @@ namespace suisen {
         SetPowerSeries& operator*=(const SetPowerSeries& g) {
             return *this = (zeta() *= g).mobius_inplace();
         }
-        SetPowerSeries& operator*=(const value_type& c) {
+        SetPowerSeries& operator*=(const value_type c) {
             for (auto& e : *this) e *= c;
             return *this;
         }
diff --git a/library/polynomial/formal_power_series.hpp b/library/polynomial/formal_power_series.hpp
index f41f17b..576253a 100644
--- a/library/polynomial/formal_power_series.hpp
+++ b/library/polynomial/formal_power_series.hpp
@@ -85,7 +85,7 @@ namespace suisen {
 
         FormalPowerSeries& operator+=(const value_type& x) { return safe_get(0) += x, *this; }
         FormalPowerSeries& operator-=(const value_type& x) { return safe_get(0) -= x, *this; }
-        FormalPowerSeries& operator*=(const value_type& x) {
+        FormalPowerSeries& operator*=(const value_type x) {
             for (auto& e : *this) e *= x;
             return *this;
         }
diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 15ba3e7..d5c18ed 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -91,7 +91,7 @@ namespace suisen {
 
         FPS& operator+=(const value_type& x) { return safe_get(0) += x, *this; }
         FPS& operator-=(const value_type& x) { return safe_get(0) -= x, *this; }
-        FPS& operator*=(const value_type& x) {
+        FPS& operator*=(const value_type x) {
             for (auto& e : *this) e *= x;
             return *this;
         }
-- 
2.43.0


From 26d2b55bf3fd55a514a2c79cca5dc3757aaca68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:16 +0000
Subject: [PATCH 170/183] fix: integer geometry keeps products in the
 configured multiplied type

---
 library/integral_geom/closest_pair.hpp | 10 +++++-----
 library/integral_geom/geometry.hpp     | 26 +++++++++++++-------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/library/integral_geom/closest_pair.hpp b/library/integral_geom/closest_pair.hpp
index 72e7119..d4ef352 100644
--- a/library/integral_geom/closest_pair.hpp
+++ b/library/integral_geom/closest_pair.hpp
@@ -11,12 +11,12 @@ namespace suisen::integral_geometry {
         assert(n > 0);
         if (n == 1) return { points[0], points[0] };
         std::sort(points.begin(), points.end(), XY_COMPARATOR);
-        coordinate_t min_dist = std::numeric_limits<coordinate_t>::max();
+        multiplied_t min_dist = std::numeric_limits<multiplied_t>::max();
         std::pair<Point, Point> ans;
-        std::vector<coordinate_t> dmin(n, min_dist);
+        std::vector<multiplied_t> dmin(n, min_dist);
 
         auto update_min = [&](int l, const Point& p, const Point& q) {
-            coordinate_t d = square_abs(p - q);
+            multiplied_t d = square_abs(p - q);
             if (d >= dmin[l]) return;
             dmin[l] = d;
             if (d >= min_dist) return;
@@ -42,10 +42,10 @@ namespace suisen::integral_geometry {
                 dmin[l] = std::min(dmin[l], dmin[m]);
                 std::vector<int> ids;
                 for (int i = l; i < r; ++i) {
-                    if (coordinate_t dx = y[i].x - points[m].x; dx * dx >= dmin[l]) continue;
+                    if (multiplied_t dx = y[i].x - points[m].x; dx * dx >= dmin[l]) continue;
                     for (auto it = ids.rbegin(); it != ids.rend(); ++it) {
                         const Point& p = y[*it];
-                        if (coordinate_t dy = y[i].y - p.y; dy * dy >= dmin[l]) break;
+                        if (multiplied_t dy = y[i].y - p.y; dy * dy >= dmin[l]) break;
                         update_min(l, y[i], p);
                     }
                     ids.push_back(i);
diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index b2e8ca3..00f7df1 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -35,7 +35,7 @@ namespace suisen::integral_geometry {
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_1_C
     int isp(const Point& a, const Point& b, const Point& c) {
         Point ab = b - a, ac = c - a;
-        coordinate_t det_ab_ac = det(ab, ac);
+        multiplied_t det_ab_ac = det(ab, ac);
         if (det_ab_ac > 0) return ISP::L_CURVE;
         if (det_ab_ac < 0) return ISP::R_CURVE;
         if (dot(ab, ac) < 0) return ISP::BACK;
@@ -67,10 +67,10 @@ namespace suisen::integral_geometry {
 
     // Triangle
 
-    coordinate_t signed_area_doubled(const Point& a, const Point& b, const Point& c) {
+    multiplied_t signed_area_doubled(const Point& a, const Point& b, const Point& c) {
         return det(b - a, c - a);
     }
-    coordinate_t area_doubled(const Point& a, const Point& b, const Point& c) {
+    multiplied_t area_doubled(const Point& a, const Point& b, const Point& c) {
         return std::abs(signed_area_doubled(a, b, c));
     }
 
@@ -93,7 +93,7 @@ namespace suisen::integral_geometry {
 
     Inclusion contains(const Line& l, const Point& p) {
         if (l.a.x == l.b.x) return p.x == l.a.x ? Inclusion::ON : Inclusion::OUT;
-        coordinate_t a = p.x - l.a.x, b = p.y - l.a.y, c = l.b.x - p.x, d = l.b.y - p.y;
+        multiplied_t a = p.x - l.a.x, b = p.y - l.a.y, c = l.b.x - p.x, d = l.b.y - p.y;
         return b * c == a * d ? Inclusion::ON : Inclusion::OUT;
     }
     Inclusion contains(const Ray& l, const Point& p) {
@@ -143,8 +143,8 @@ namespace suisen::integral_geometry {
     using Polygon = std::vector<Point>;
 
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_3_A
-    coordinate_t signed_area_doubled(const Polygon& poly) {
-        coordinate_t res = 0;
+    multiplied_t signed_area_doubled(const Polygon& poly) {
+        multiplied_t res = 0;
         int sz = poly.size();
         for (int i = 0; i < sz; ++i) {
             int j = i + 1;
@@ -154,7 +154,7 @@ namespace suisen::integral_geometry {
         return res;
     }
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_3_A
-    coordinate_t area_doubled(const Polygon& poly) {
+    multiplied_t area_doubled(const Polygon& poly) {
         return std::abs(signed_area_doubled(poly));
     }
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_3_B
@@ -196,7 +196,7 @@ namespace suisen::integral_geometry {
             auto [it_min, it_max] = std::minmax_element(convex.begin(), convex.end(), XY_COMPARATOR);
             return std::pair<int, int> { it_min - convex.begin(), it_max - convex.begin() };
         }();
-        coordinate_t max_dist = -1;
+        multiplied_t max_dist = -1;
         std::pair<int, int> argmax{ -1, -1 };
         for (int i = si, j = sj; i != sj or j != si;) {
             if (multiplied_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
@@ -211,13 +211,13 @@ namespace suisen::integral_geometry {
 
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_7_A
     int tangent_num(const Circle& c1, const Circle& c2) {
-        coordinate_t r1 = c1.radius, r2 = c2.radius;
+        multiplied_t r1 = c1.radius, r2 = c2.radius;
         if (r1 > r2) return tangent_num(c2, c1);
-        coordinate_t d2 = square_abs(c1.center - c2.center);
-        coordinate_t dp = d2 - (r1 + r2) * (r1 + r2);
+        multiplied_t d2 = square_abs(c1.center - c2.center);
+        multiplied_t dp = d2 - (r1 + r2) * (r1 + r2);
         if (dp > 0) return 4;
         if (dp == 0) return 3;
-        coordinate_t dn = d2 - (r2 - r1) * (r2 - r1);
+        multiplied_t dn = d2 - (r2 - r1) * (r2 - r1);
         if (dn > 0) return 2;
         if (dn == 0) return 1;
         return 0;
@@ -231,7 +231,7 @@ namespace suisen::integral_geometry {
     }
 
     Inclusion contains(const Circle& c, const Point& p) {
-        coordinate_t df = square_abs(c.center - p) - c.radius * c.radius;
+        multiplied_t df = square_abs(c.center - p) - multiplied_t(c.radius) * c.radius;
         if (df > 0) return Inclusion::OUT;
         if (df < 0) return Inclusion::IN;
         return Inclusion::ON;
-- 
2.43.0


From e3690f1ec00875dc605ac306622b028dcdfe1def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:06 +0000
Subject: [PATCH 171/183] fix: Manhattan spanning tree and nearest distances
 for floating points and wide weights

---
 library/graph/manhattan_minimum_distances.hpp | 2 +-
 library/graph/manhattan_mst.hpp               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/graph/manhattan_minimum_distances.hpp b/library/graph/manhattan_minimum_distances.hpp
index 4547179..0fd9a6a 100644
--- a/library/graph/manhattan_minimum_distances.hpp
+++ b/library/graph/manhattan_minimum_distances.hpp
@@ -13,7 +13,7 @@ namespace suisen {
         template <typename T>
         T op(T x, T y) { return std::max(x, y); };
         template <typename T>
-        T e() { return std::numeric_limits<T>::min(); };
+        T e() { return std::numeric_limits<T>::lowest(); };
         template <typename T>
         using PrefixMaxQuery = FenwickTreePrefix<T, op<T>, e<T>>;
     } // namespace internal::manhattan_minimum_distances
diff --git a/library/graph/manhattan_mst.hpp b/library/graph/manhattan_mst.hpp
index 6e48a2c..e4f0f50 100644
--- a/library/graph/manhattan_mst.hpp
+++ b/library/graph/manhattan_mst.hpp
@@ -14,7 +14,7 @@ namespace suisen {
         template <typename T>
         std::pair<T, int> op(std::pair<T, int> x, std::pair<T, int> y) { return std::max(x, y); };
         template <typename T>
-        std::pair<T, int> e() { return { std::numeric_limits<T>::min(), -1 }; };
+        std::pair<T, int> e() { return { std::numeric_limits<T>::lowest(), -1 }; };
         template <typename T>
         using PrefixMaxQuery = FenwickTreePrefix<std::pair<T, int>, op<T>, e<T>>;
     } // namespace internal::manhattan_mst
@@ -52,7 +52,7 @@ namespace suisen {
                 const int cx = compress(x);
                 if (const auto p = pmq.prefix_query(cx + 1); p != e<T>()) {
                     const auto& [v, j] = p;
-                    mst.add_edge(i, j, x + y - v);
+                    mst.add_edge(i, j, WeightType(x + y) - WeightType(v));
                 }
                 pmq.apply(cx, { x + y, i });
             }
-- 
2.43.0


From a96d7e8db7690e8835934d3cc5f7ec7aeb640ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:33 +0000
Subject: [PATCH 172/183] fix: Fenwick trees: element access for modular and
 floating values, every index length

---
 .../fenwick_tree/fenwick_tree.hpp             | 38 ++++++++++---------
 .../fenwick_tree/fenwick_tree_2d.hpp          | 32 ++++++++--------
 2 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree.hpp b/library/datastructure/fenwick_tree/fenwick_tree.hpp
index d4e66c1..12563a7 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree.hpp
@@ -13,30 +13,34 @@ namespace suisen {
             FenwickTreeBase() = default;
             explicit FenwickTreeBase(index_t n) : n(n) {}
 
-            int size() const {
+            index_t size() const {
                 return n;
             }
             void add(index_t i, T v) {
-                for (++i; i <= n; i += (i & -i)) data[i - 1] += v;
+                for (++i; i <= n; i += (i & -i)) {
+                    data[i - 1] += v;
+                    if ((i & -i) > n - i) break; // the next index may not be representable
+                }
             }
             T sum(index_t l, index_t r) const {
                 return sum(r) - sum(l);
             }
-            auto operator[](index_t i) {
-                struct {
-                    index_t i;
-                    FenwickTreeBase& ft;
-                    operator T() const { return ft.sum(i, i + 1); }
-                    auto& operator++() { return *this += 1; }
-                    auto& operator--() { return *this -= 1; }
-                    auto& operator+=(T val) { ft.add(i, val); return *this; }
-                    auto& operator-=(T val) { ft.add(i, -val); return *this; }
-                    auto& operator*=(T val) { T cur = ft.sum(i, i + 1); ft.add(i, cur * val - cur); return *this; }
-                    auto& operator/=(T val) { T cur = ft.sum(i, i + 1); ft.add(i, cur / val - cur); return *this; }
-                    auto& operator%=(T val) { T cur = ft.sum(i, i + 1); ft.add(i, cur % val - cur); return *this; }
-                    auto& operator =(T val) { T cur = ft.sum(i, i + 1); ft.add(i, val - cur); return *this; }
-                } obj{ i, *this };
-                return obj;
+            // Not a local class: operators that T lacks (e.g. %) must not be instantiated unless used
+            struct ElementProxy {
+                index_t i;
+                FenwickTreeBase& ft;
+                operator T() const { return ft.sum(i, i + 1); }
+                auto& operator++() { return *this += 1; }
+                auto& operator--() { return *this -= 1; }
+                auto& operator+=(T val) { ft.add(i, val); return *this; }
+                auto& operator-=(T val) { ft.add(i, -val); return *this; }
+                auto& operator*=(T val) { T cur = ft.sum(i, i + 1); ft.add(i, cur * val - cur); return *this; }
+                auto& operator/=(T val) { T cur = ft.sum(i, i + 1); ft.add(i, cur / val - cur); return *this; }
+                auto& operator%=(T val) { T cur = ft.sum(i, i + 1); ft.add(i, cur % val - cur); return *this; }
+                auto& operator =(T val) { T cur = ft.sum(i, i + 1); ft.add(i, val - cur); return *this; }
+            };
+            ElementProxy operator[](index_t i) {
+                return ElementProxy{ i, *this };
             }
             T operator()(index_t l, index_t r) const { return sum(l, r); }
 
diff --git a/library/datastructure/fenwick_tree/fenwick_tree_2d.hpp b/library/datastructure/fenwick_tree/fenwick_tree_2d.hpp
index 31867f1..8154073 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_2d.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_2d.hpp
@@ -18,22 +18,22 @@ namespace suisen {
         T sum(int xl, int xr, int yl, int yr) const {
             return sum(xr, yr) - sum(xl, yr) - sum(xr, yl) + sum(xl, yl);
         }
-        auto operator[](std::pair<int, int> index) {
-            auto [i, j] = index;
-            struct {
-                int i, j;
-                FenwickTree2D& ft;
-                operator T() const { return ft.sum(i, i + 1, j, j + 1); }
-                auto& operator++() { return *this += 1; }
-                auto& operator--() { return *this -= 1; }
-                auto& operator+=(T val) { ft.add(i, j, val); return *this; }
-                auto& operator-=(T val) { ft.add(i, j, -val); return *this; }
-                auto& operator*=(T val) { T cur = *this; ft.add(i, j, cur * val - cur); return *this; }
-                auto& operator/=(T val) { T cur = *this; ft.add(i, j, cur / val - cur); return *this; }
-                auto& operator%=(T val) { T cur = *this; ft.add(i, j, cur % val - cur); return *this; }
-                auto& operator =(T val) { T cur = *this; ft.add(i, j, val - cur); return *this; }
-            } obj{ i, j, *this };
-            return obj;
+        // Not a local class: operators that T lacks (e.g. %) must not be instantiated unless used
+        struct ElementProxy {
+            int i, j;
+            FenwickTree2D& ft;
+            operator T() const { return ft.sum(i, i + 1, j, j + 1); }
+            auto& operator++() { return *this += 1; }
+            auto& operator--() { return *this -= 1; }
+            auto& operator+=(T val) { ft.add(i, j, val); return *this; }
+            auto& operator-=(T val) { ft.add(i, j, -val); return *this; }
+            auto& operator*=(T val) { T cur = *this; ft.add(i, j, cur * val - cur); return *this; }
+            auto& operator/=(T val) { T cur = *this; ft.add(i, j, cur / val - cur); return *this; }
+            auto& operator%=(T val) { T cur = *this; ft.add(i, j, cur % val - cur); return *this; }
+            auto& operator =(T val) { T cur = *this; ft.add(i, j, val - cur); return *this; }
+        };
+        ElementProxy operator[](std::pair<int, int> index) {
+            return ElementProxy{ index.first, index.second, *this };
         }
         T operator()(int xl, int xr, int yl, int yr) const { return sum(xl, xr, yl, yr); }
 
-- 
2.43.0


From 34dfb2370299f4489a73cf226e2593893ea7e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:17 +0000
Subject: [PATCH 173/183] fix: compressed wavelet matrix: strictly-greater and
 at-most queries for non-integral values

---
 library/datastructure/compressed_wavelet_matrix.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index f489ab7..5fe4a0d 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -71,7 +71,8 @@ namespace suisen {
         }
         // returns the minimum value v in WaveletMatrix[l, r) s.t. lower < v
         inline T range_min_gt(int l, int r, T lower, T default_value = T(-1)) const {
-            return lower == std::numeric_limits<T>::max() ? default_value : range_min_geq(l, r, lower + 1, default_value);
+            int x = WaveletMatrix<int, log_max_len>::range_min_geq(l, r, comp.min_gt_index(lower), -1);
+            return x == -1 ? default_value : comp.decomp(x);
         }
         // returns the maximum value v in WaveletMatrix[l, r) s.t. v < upper
         inline T range_max_lt(int l, int r, T upper, T default_value = T(-1)) const {
@@ -80,8 +81,8 @@ namespace suisen {
         }
         // returns the maximum value v in WaveletMatrix[l, r) s.t. v <= upper
         inline T range_max_leq(int l, int r, T upper, T default_value = T(-1)) const {
-            if (l >= r) return default_value;
-            return upper == std::numeric_limits<T>::max() ? range_max(l, r) : range_max_lt(l, r, upper + 1, default_value);
+            int x = WaveletMatrix<int, log_max_len>::range_max_lt(l, r, comp.min_gt_index(upper), -1);
+            return x == -1 ? default_value : comp.decomp(x);
         }
     private:
         typename CoordinateCompressorBuilder<T>::Compressor comp;
-- 
2.43.0


From 88f010b3c073c58b0661c356ab7e73204b066e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:24 +0000
Subject: [PATCH 174/183] fix: factorial_number: the most negative value,
 multiplication by it, and the empty permutation

---
 library/number/factorial_number.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/library/number/factorial_number.hpp b/library/number/factorial_number.hpp
index 501c7a0..77586a0 100644
--- a/library/number/factorial_number.hpp
+++ b/library/number/factorial_number.hpp
@@ -10,12 +10,12 @@
 namespace suisen {
     struct factorial_number {
         factorial_number(): factorial_number(1) {}
-        explicit factorial_number(int n, long long val = 0): _n(n), _d(_n - 1) {
+        explicit factorial_number(int n, long long val = 0): _n(n), _d(std::max(_n - 1, 0)) {
             bool neg = val < 0;
-            val = std::abs(val);
-            for (int i = 0; val and i < _n - 1; ++i) {
-                _d[i] = val % (i + 2);
-                val /= i + 2;
+            unsigned long long abs_val = neg ? -static_cast<unsigned long long>(val) : val;
+            for (int i = 0; abs_val and i < _n - 1; ++i) {
+                _d[i] = abs_val % (i + 2);
+                abs_val /= i + 2;
             }
             if (neg) *this = -*this;
         }
@@ -33,7 +33,7 @@ namespace suisen {
         }
         void resize(int n) {
             _n = n;
-            _d.resize(_n - 1);
+            _d.resize(std::max(_n - 1, 0));
         }
 
         factorial_number operator-() const {
@@ -121,10 +121,9 @@ namespace suisen {
 
         factorial_number& operator*=(long long val) {
             bool neg = val < 0;
-            val = std::abs(val);
-            __int128_t carry = 0;
+            __int128_t abs_val = neg ? -__int128_t(val) : __int128_t(val), carry = 0;
             for (int i = 0; i < _n - 1; ++i) {
-                __int128_t x = __int128_t(_d[i]) * val + carry;
+                __int128_t x = _d[i] * abs_val + carry;
                 _d[i] = x % (i + 2);
                 carry = x / (i + 2);
             }
-- 
2.43.0


From 390527df975d57f6bea1a2321b18c17f16a9de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:54 +0000
Subject: [PATCH 175/183] fix: range xored mex: keys as wide as the value type
 shifted by the full width

---
 library/range_query/static_range_xored_mex_query.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/range_query/static_range_xored_mex_query.hpp b/library/range_query/static_range_xored_mex_query.hpp
index 5e28adf..ba66b7b 100644
--- a/library/range_query/static_range_xored_mex_query.hpp
+++ b/library/range_query/static_range_xored_mex_query.hpp
@@ -57,8 +57,11 @@ namespace suisen {
 
         // returns mex { A_i ^ x | l <= i < r }
         T minimum_excluded(int l, int r, T x) const {
-            if (x >> bit_num) return 0;
-            if (min_r[bit_num][l] <= r) return T(1) << bit_num;
+            // shifting a value by its full width is undefined
+            if constexpr (bit_num < std::numeric_limits<std::make_unsigned_t<T>>::digits) {
+                if (x >> bit_num) return 0;
+                if (min_r[bit_num][l] <= r) return T(1) << bit_num;
+            }
             T res = 0;
             for (int log = bit_num - 1; log >= 0; --log) {
                 bool z = (x >> log) & 1;
-- 
2.43.0


From 9773ddf24e455809f78f1277ad744596f235bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:30 +0000
Subject: [PATCH 176/183] fix: factorize: trial divisors above 2^31 narrowed to
 int

---
 library/number/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/util.hpp b/library/number/util.hpp
index 7751f72..f79c2d8 100644
--- a/library/number/util.hpp
+++ b/library/number/util.hpp
@@ -51,7 +51,7 @@ namespace suisen {
 
         assert(n > 0);
         std::vector<std::pair<T, int>> res;
-        auto f = [&res, &n](int p) {
+        auto f = [&res, &n](T p) {
             if (n % p) return;
             int cnt = 0;
             do n /= p, ++cnt; while (n % p == 0);
-- 
2.43.0


From 9313362dd21cac8218358aa9d70bf2bda73964af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:30 +0000
Subject: [PATCH 177/183] fix: all_subset_k: subset sizes of at least the word
 width

---
 library/util/subset_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/subset_iterator.hpp b/library/util/subset_iterator.hpp
index 47997a7..77b5daa 100644
--- a/library/util/subset_iterator.hpp
+++ b/library/util/subset_iterator.hpp
@@ -37,7 +37,7 @@ namespace suisen {
             const uint32_t n, k, s;
             uint32_t t;
             __attribute__((target("avx2")))
-            all_subset_k_iter(uint32_t s, uint32_t k) : n(uint32_t(1) << _mm_popcnt_u32(s)), k(k), s(s), t((uint32_t(1) << k) - 1) {}
+            all_subset_k_iter(uint32_t s, uint32_t k) : n(uint32_t(1) << _mm_popcnt_u32(s)), k(k), s(s), t(k < 32 ? (uint32_t(1) << k) - 1 : std::numeric_limits<uint32_t>::max()) {}
             __attribute__((target("bmi2")))
             auto operator*() const { return _pdep_u32(t, s); }
             __attribute__((target("bmi")))
@@ -66,7 +66,7 @@ namespace suisen {
             const uint32_t k;
             uint64_t t;
             __attribute__((target("avx2")))
-            all_subset_k_iter_64(uint64_t s, uint32_t k) : n(uint64_t(1) << _mm_popcnt_u64(s)), s(s), k(k), t((uint64_t(1) << k) - 1) {}
+            all_subset_k_iter_64(uint64_t s, uint32_t k) : n(uint64_t(1) << _mm_popcnt_u64(s)), s(s), k(k), t(k < 64 ? (uint64_t(1) << k) - 1 : std::numeric_limits<uint64_t>::max()) {}
             __attribute__((target("bmi2")))
             auto operator*() const { return _pdep_u64(t, s); }
             __attribute__((target("bmi")))
-- 
2.43.0


From 3bbded64c9c411fba4b785918b084d482031ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:30 +0000
Subject: [PATCH 178/183] fix: in_range, out_range: a negative upper bound

---
 library/util/grid_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/grid_utils.hpp b/library/util/grid_utils.hpp
index ce479b1..dd9f4a3 100644
--- a/library/util/grid_utils.hpp
+++ b/library/util/grid_utils.hpp
@@ -12,7 +12,7 @@ constexpr inline bool in_range(const T &x, const T &l, const T &r) {
 // 0 <= x < r
 template <typename T>
 constexpr inline bool in_range(const T &x, const T &r) {
-    return (std::make_unsigned_t<T>) x < (std::make_unsigned_t<T>) r;
+    return 0 <= x and x < r;
 }
 // not (l <= x < r)
 template <typename T>
@@ -22,7 +22,7 @@ constexpr inline bool out_range(const T &x, const T &l, const T &r) {
 // not (0 <= x < r)
 template <typename T>
 constexpr inline bool out_range(const T &x, const T &r) {
-    return (std::make_unsigned_t<T>) x >= (std::make_unsigned_t<T>) r;
+    return x < 0 or r <= x;
 }
 
 constexpr int dx4[4] = {1, 0, -1, 0};
-- 
2.43.0


From 4a025bafb0eaf88c5099f73b653bacece7426ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:39 +0000
Subject: [PATCH 179/183] fix: min_of_mod_of_linear: moduli and offsets above
 2^30

---
 library/number/min_of_mod_of_linear.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/min_of_mod_of_linear.hpp b/library/number/min_of_mod_of_linear.hpp
index 8e83a49..c0862be 100644
--- a/library/number/min_of_mod_of_linear.hpp
+++ b/library/number/min_of_mod_of_linear.hpp
@@ -25,8 +25,8 @@ namespace suisen {
 
         int l = -1, r = m - 1;
         while (r - l > 1) {
-            int k = (l + r) >> 1;
-            if (atcoder::floor_sum(n, m, a, b + (m - 1 - k)) < v) {
+            int k = l + ((r - l) >> 1);
+            if (atcoder::floor_sum(n, m, a, (long long) b + (m - 1 - k)) < v) {
                 r = k;
             } else {
                 l = k;
-- 
2.43.0


From 145247a35d4d3a0499f88c401e4bda5c6513a5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:51 +0000
Subject: [PATCH 180/183] fix: binary trie (patricia): size() narrowed to int
 for wider size types

---
 library/datastructure/binary_trie_patricia.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 802bb2c..493560c 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -67,7 +67,7 @@ namespace suisen {
         }
 
         // number of elements in the set
-        int size() const {
+        size_type size() const {
             return _root->siz;
         }
         // true iff size() == 0
-- 
2.43.0


From f1662f80e9a61eb58acb00f758192354d1034b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:30 +0000
Subject: [PATCH 181/183] fix: sparse segment trees: midpoints of domains above
 half of the index type overflowed

---
 .../segment_tree/sparse_lazy_segment_tree.hpp          | 10 +++++-----
 .../datastructure/segment_tree/sparse_segment_tree.hpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
index edb9803..fe8263d 100644
--- a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
@@ -51,7 +51,7 @@ namespace suisen {
             operator_type f = id();
             pool_index_type cur = root;
             for (std::array<index_type, 2> lr { 0, n }; cur and lr[1] - lr[0] > 1;) {
-                index_type m = (lr[0] + lr[1]) >> 1;
+                index_type m = lr[0] + ((lr[1] - lr[0]) >> 1);
                 bool b = i >= m;
                 f = composition(f, pool[cur].laz);
                 cur = pool[cur].ch[b], lr[not b] = m;
@@ -65,7 +65,7 @@ namespace suisen {
             pool_index_type cur = root;
             for (std::array<index_type, 2> lr { 0, n }; lr[1] - lr[0] > 1;) {
                 path.push_back(cur);
-                index_type m = (lr[0] + lr[1]) >> 1;
+                index_type m = lr[0] + ((lr[1] - lr[0]) >> 1);
                 bool b = i >= m;
                 push(cur, lr[0], lr[1]);
                 cur = pool[cur].ch[b], lr[not b] = m;
@@ -114,7 +114,7 @@ namespace suisen {
             pool[node].laz = composition(f, pool[node].laz);
         }
         void push(pool_index_type node, index_type tl, index_type tr) {
-            const index_type tm = (tl + tr) >> 1;
+            const index_type tm = tl + ((tr - tl) >> 1);
             const operator_type laz = pool[node].laz;
             apply_all(get_or_create_child(node, 0, tl, tm), laz, tl, tm);
             apply_all(get_or_create_child(node, 1, tm, tr), laz, tm, tr);
@@ -130,14 +130,14 @@ namespace suisen {
             if (tr <= ql or qr <= tl) return e();
             if (ql <= tl and tr <= qr) return pool[node].dat;
             push(node, tl, tr);
-            const index_type tm = (tl + tr) >> 1;
+            const index_type tm = tl + ((tr - tl) >> 1);
             return op(query(pool[node].ch[0], ql, qr, tl, tm), query(pool[node].ch[1], ql, qr, tm, tr));
         }
 
         void apply(pool_index_type node, const operator_type& f, index_type ql, index_type qr, index_type tl, index_type tr) {
             if (tr <= ql or qr <= tl) return;
             if (ql <= tl and tr <= qr) return apply_all(node, f, tl, tr);
-            const index_type tm = (tl + tr) >> 1;
+            const index_type tm = tl + ((tr - tl) >> 1);
             push(node, tl, tr);
             apply(pool[node].ch[0], f, ql, qr, tl, tm), apply(pool[node].ch[1], f, ql, qr, tm, tr);
             update(node);
diff --git a/library/datastructure/segment_tree/sparse_segment_tree.hpp b/library/datastructure/segment_tree/sparse_segment_tree.hpp
index b4bedd6..f058546 100644
--- a/library/datastructure/segment_tree/sparse_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sparse_segment_tree.hpp
@@ -48,7 +48,7 @@ namespace suisen {
             assert(0 <= i and i < n);
             pool_index_type cur = root;
             for (index_type l = 0, r = n; cur and r - l > 1;) {
-                index_type m = (l + r) >> 1;
+                index_type m = l + ((r - l) >> 1);
                 if (i < m) cur = pool[cur].ch[0], r = m;
                 else       cur = pool[cur].ch[1], l = m;
             }
@@ -62,7 +62,7 @@ namespace suisen {
                     pool[cur].dat = fun(get(cur, l, r));
                     return;
                 }
-                const index_type m = (l + r) >> 1;
+                const index_type m = l + ((r - l) >> 1);
                 if (i < m) rec(rec, get_or_create_child(cur, 0, l, m), l, m);
                 else       rec(rec, get_or_create_child(cur, 1, m, r), m, r);
                 pool[cur].dat = op(get(pool[cur].ch[0], l, m), get(pool[cur].ch[1], m, r));
@@ -102,7 +102,7 @@ namespace suisen {
             if (tr <= ql or qr <= tl) return e();
             if (not node) return init(std::max(ql, tl), std::min(qr, tr));
             if (ql <= tl and tr <= qr) return pool[node].dat;
-            const index_type tm = (tl + tr) >> 1;
+            const index_type tm = tl + ((tr - tl) >> 1);
             return op(query(pool[node].ch[0], ql, qr, tl, tm), query(pool[node].ch[1], ql, qr, tm, tr));
         }
     };
-- 
2.43.0


From 59312e5afaf71905adadd80ff2cc470c529affcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:13 +0000
Subject: [PATCH 182/183] fix: RangeSet: inserting a range that ends at the
 greatest value of the type

---
 library/datastructure/util/range_set.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/util/range_set.hpp b/library/datastructure/util/range_set.hpp
index 2eb3e7c..1fb00ff 100644
--- a/library/datastructure/util/range_set.hpp
+++ b/library/datastructure/util/range_set.hpp
@@ -114,7 +114,8 @@ struct RangeSet : public std::map<T, T> {
         T _size;
 
         bool is_mergeable(T cur_r, T next_l) {
-            return next_l <= cur_r + merge_adjacent_segment;
+            // cur_r + 1 may not be representable in T
+            return next_l <= cur_r or (merge_adjacent_segment and next_l - 1 == cur_r);
         }
 };
 
-- 
2.43.0


From b08591bcccdb0c5ddee1f510cd1d2b79fe1041ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:44 +0000
Subject: [PATCH 183/183] fix: fenwick_tree_set: queries at the ends of int,
 documented as allowed out of range

---
 library/datastructure/fenwick_tree/fenwick_tree_set.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
index 82ad048..e1184f1 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
@@ -93,7 +93,7 @@ namespace suisen {
         }
         // O(log n).
         // Count elements <= `v`. `v` may be out of range.
-        int count_leq(int v) const { return count_lt(v + 1); }
+        int count_leq(int v) const { return v >= _n ? _siz : count_lt(v + 1); }
         // O(log n).
         // Count elements > `v`. `v` may be out of range.
         int count_gt(int v) const { return _siz - count_leq(v); }
@@ -142,7 +142,7 @@ namespace suisen {
         }
         // O(log n).
         // Max element < `v` or `-1` if not exists
-        int max_lt(int v) const { return max_leq(v - 1); }
+        int max_lt(int v) const { return v <= 0 ? -1 : max_leq(v - 1); }
         // O(log n).
         // Min element >= `v` or `-1` if not exists
         int min_geq(int v) const {
@@ -160,7 +160,7 @@ namespace suisen {
         }
         // O(log n).
         // Min element > `v` or `-1` if not exists
-        int min_gt(int v) const { return min_geq(v + 1); }
+        int min_gt(int v) const { return v >= _n ? -1 : min_geq(v + 1); }
     private:
         struct IndexHolder {
             friend fenwick_tree_set;
-- 
2.43.0

