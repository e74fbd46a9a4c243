#include "large.hpp"
#include "treap_common.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp"
template <class Tr, int F> static void big(Gen& g) {
    int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); len_bad = false; std::vector<V> a(n); for (auto& x : a) x = v_of(b.raw(P));
    Tr t; if (g.coin()) t = Tr(a); else for (auto& x : a) t.push_back(x);
    for (int k = 0; k < 700; ++k) {
        n = a.size();
        switch (b.raw(9)) {
            case 0: { int i = b.in(0, n); V v = v_of(b.raw(P)); t.insert(size_t(i), v); a.insert(a.begin() + i, v); } break;
            case 1: { int i = b.in(0, n - 1); V v = t.erase(size_t(i)); EQ(v, a[i]); a.erase(a.begin() + i); } break;
            case 2: { int i = b.in(0, n); Tr r = t.split(i); EQ(r.size(), n - i); if (b.coin()) t.merge(r); else { r.merge(t); t = r; std::rotate(a.begin(), a.begin() + i, a.end()); } } break;
            case 3: { int i = b.in(0, n); t.rotate(i); std::rotate(a.begin(), a.begin() + i, a.end()); } break;
            case 4: { auto [l, r] = b.seg(n); int m = b.in(l, r); t.rotate(l, m, r); std::rotate(a.begin() + l, a.begin() + m, a.begin() + r); } break;
            case 5: if constexpr (F & REV) { auto [l, r] = b.seg(n); t.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); } break;
            case 6: if constexpr (F & (LAZY | DUAL)) { auto [l, r] = b.seg(n); A f{ (i64)b.raw(P - 1) + 1, (i64)b.raw(P) }; t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = v_map2(f, a[i]); } break;
            case 7: if constexpr (F & SEG) if (k % 4 == 0) { auto [l, r] = b.seg(n); EQ(t.prod(l, r), v_fold(a, l, r)); } break;
            default: for (int j = 0; j < 20; ++j) { int i = b.in(0, n - 1); EQ(V(t[i]), a[i]); }
        }
        EQ(t.size(), (int)a.size());
    }
    EQ(t.dump(), a); if constexpr (F & SEG) EQ(t.prod_all(), v_fold(a, 0, a.size()));
    CK(!len_bad); t.free();
}
PBT(rev_array_large, 3, "every case: more than 50000 elements") { big<suisen::ReversibleDynamicArray<V>, REV>(g); }
PBT(rev_segtree_large, 3, "every case: more than 50000 elements") { big<suisen::ReversibleDynamicSegmentTree<V, v_op, v_e, v_tog>, REV | SEG>(g); }
PBT(rev_lazy_large, 3, "every case: more than 50000 elements") { big<suisen::ReversibleDynamicLazySegmentTree<V, v_op, v_e, v_tog, A, v_map, a_comp, a_id>, REV | SEG | LAZY>(g); }
PBT(rev_dual_large, 3, "every case: more than 50000 elements") { big<suisen::ReversibleDynamicDualSegmentTree<V, A, v_map2, a_comp, a_id>, REV | DUAL>(g); }
