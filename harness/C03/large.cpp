#include "large.hpp"
#include "treap_common.hpp"
#include "library/datastructure/bbst/implicit_treap.hpp"
#include "library/datastructure/bbst/implicit_treap_segtree.hpp"
template <class Tr, int F> static void big(Gen& g) {
    int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); len_bad = false; std::vector<V> a(n); for (auto& x : a) x = v_of(b.raw(P));
    Tr t; if (g.coin()) t = Tr(a); else for (auto& x : a) t.push_back(x);
    for (int k = 0; k < 700; ++k) {
        n = a.size();
        switch (b.raw(9)) {
            case 0: { int i = b.in(0, n); V v = v_of(b.raw(P)); t.insert(size_t(i), v); a.insert(a.begin() + i, v); } break;
            case 1: { int i = b.in(0, n - 1); V v = t.erase(size_t(i)); EQ(v, a[i]); a.erase(a.begin() + i); } break;
            case 2: { int i = b.in(0, n); Tr r = t.split(i); EQ(r.size(), n - i); if (b.coin()) t.merge(r); else { r.merge(t); t = r; std::rotate(a.begin(), a.begin() + i, a.end()); } } break;
            case 3: { int i = b.in(0, n); t.rotate(i); std::rotate(a.begin(), a.begin() + i, a.end()); } break;
            case 4: { auto [l, r] = b.seg(n); int m = b.in(l, r); t.rotate(l, m, r); std::rotate(a.begin() + l, a.begin() + m, a.begin() + r); } break;
            case 5: if constexpr (F & REV) { auto [l, r] = b.seg(n); t.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); } break;
            case 6: if constexpr (F & (LAZY | DUAL)) { auto [l, r] = b.seg(n); A f{ (i64)b.raw(P - 1) + 1, (i64)b.raw(P) }; t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = v_map2(f, a[i]); } break;
            case 7: if constexpr (F & SEG) if (k % 4 == 0) { auto [l, r] = b.seg(n); EQ(t.prod(l, r), v_fold(a, l, r)); } break;
            default: for (int j = 0; j < 20; ++j) { int i = b.in(0, n - 1); EQ(V(t[i]), a[i]); }
        }
        EQ(t.size(), (int)a.size());
    }
    EQ(t.dump(), a); if constexpr (F & SEG) EQ(t.prod_all(), v_fold(a, 0, a.size()));
    CK(!len_bad); t.free();
}
PBT(array_large, 3, "every case: more than 50000 elements") { big<suisen::DynamicArray<V>, 0>(g); }
PBT(segtree_large, 3, "every case: more than 50000 elements") { big<suisen::DynamicSegmentTree<V, v_op, v_e>, SEG>(g); }
// 10^5 insertions at one end / in sorted order keep working
PBT(sorted_large, 2, "every case: 10^5 ordered insertions then searches") {
    suisen::DynamicArray<V> t; Bulk b(g); int n = 100000; bool up = g.coin(); g.nontrivial(); std::vector<i64> key(n); for (auto& x : key) x = b.raw(1000000); std::sort(key.begin(), key.end());
    for (int i = 0; i < n; ++i) { if (up) t.push_back(v_of(key[i])); else t.push_front(v_of(key[n - 1 - i])); }
    for (int k = 0; k < 3000; ++k) { i64 x = b.coin() ? key[b.raw(n)] : (i64)b.raw(1000001); EQ(pos_of(t.lower_bound(v_of(x))), int(std::lower_bound(key.begin(), key.end(), x) - key.begin())); EQ(pos_of(t.upper_bound(v_of(x))), int(std::upper_bound(key.begin(), key.end(), x) - key.begin())); }
    t.free();
}
