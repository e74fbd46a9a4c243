#include "treap_common.hpp"
#include "library/datastructure/bbst/implicit_treap.hpp"
#include "library/datastructure/bbst/implicit_treap_segtree.hpp"
PBT(dynamic_array, 3000, "a point read / sorted search after an edit", 8, 12) { treap_history<suisen::DynamicArray<V>, 0>(g); }
PBT(dynamic_segtree, 3000, "a non-empty range fold after an edit", 8, 12) { treap_history<suisen::DynamicSegmentTree<V, v_op, v_e>, SEG>(g); }
PBT(const_iterator_conversion, 500, "an iterator strictly inside the array is converted", 8, 12) {
    std::vector<V> a; int n = g.size(1, 60); for (int i = 0; i < n; ++i) a.push_back(v_of(g.raw(50)));
    suisen::DynamicArray<V> t(a); int i = g.raw(n);
    auto it = t.begin() + i; if (g.coin()) EQ(*it, a[i]);
    suisen::DynamicArray<V>::const_iterator c = it; EQ(*c, a[i]); EQ(c.index(), i); g.nontrivial(i > 0);
    auto rt = t.rbegin() + i; suisen::DynamicArray<V>::const_reverse_iterator rc = rt; EQ(*rc, a[n - 1 - i]);
    *it = v_of(777); EQ(*c, v_of(777));
    t.free();
}
