#include "large.hpp"
#include "../C04/rbt_common.hpp"
#include "library/datastructure/bbst/persistent_red_black_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_reversible_lazy_segment_tree.hpp"
namespace BB = suisen::bbst;
template <class N, class X, int F> static void rbt_big(Gen& g) {
    using T = typename N::tree_type; using O = Ops<X>; int n = big_n(g, 40000); Bulk b(g); g.nontrivial(); len_bad = false; N::init_pool(1500000);
    auto nv = [&] { return O::of(b.raw(P)); }; std::vector<X> a(n); for (auto& x : a) x = nv(); T t = N::build(a);
    auto fold = [&](const std::vector<X>& c, int l, int r) { X s; for (int i = l; i < r; ++i) s = O::op(s, c[i]); return s; };
    std::vector<std::pair<T, std::vector<X>>> vs{ { t, a } };
    for (int k = 1; k < 250; ++k) {
        n = a.size(); auto [l, r] = b.seg(n);
        switch (b.raw(9)) {
            case 0: { int i = b.in(0, n); X v = nv(); t = N::insert(t, i, v); a.insert(a.begin() + i, v); } break;
            case 1: if (n) { int i = b.in(0, n - 1); X v; std::tie(t, v) = N::erase(t, i); EQ(v, a[i]); a.erase(a.begin() + i); } break;
            case 2: { auto [x, y, z] = N::split_range(t, l, r); t = N::merge(N::merge(x, z), y); std::rotate(a.begin() + l, a.begin() + r, a.end()); } break;
            case 3: if constexpr (F & REV) { t = N::reverse(t, l, r); std::reverse(a.begin() + l, a.begin() + r); } break;
            case 4: if constexpr (F & LAZY) { A f{ (i64)b.raw(P - 1) + 1, (i64)b.raw(P) }; t = N::apply(t, l, r, f); for (int i = l; i < r; ++i) a[i] = O::ap(f, a[i]); } break;
            case 5: if constexpr (F & SEG) { X v; std::tie(t, v) = N::prod(t, l, r); EQ(v, fold(a, l, r)); } break;
            case 6: if (n) { int i = b.in(0, n - 1); X v = nv(); t = N::set(t, i, v); a[i] = v; } break;
            case 7: if (n < 60000 && r - l < 20000) { t = N::merge(t, N::cut(t, l, r)); std::vector<X> c(a.begin() + l, a.begin() + r); a.insert(a.end(), c.begin(), c.end()); } break;
            default: if (b.raw(3) == 0) { auto& v = vs[b.raw(vs.size())]; t = v.first, a = v.second; }
        }
        EQ(N::size(t), (int)a.size()); if (k % 40 == 0) vs.emplace_back(t, a);
    }
    for (auto& [u, c] : vs) { std::vector<X> d; N::dump(u, std::back_inserter(d)); EQ(d, c); if constexpr (F & SEG) EQ(N::prod_all(u), fold(c, 0, c.size())); }
    CK(!len_bad);
}
PBT(plain_large, 2, "every case: tens of thousands of elements, seven snapshots re-read") { rbt_big<BB::PersistentRedBlackTreeNode<V>, V, 0>(g); }
PBT(segtree_large, 2, "every case: tens of thousands of elements, seven snapshots re-read") { rbt_big<BB::segtree::PersistentRedBlackTreeNode<V, v_op, v_e>, V, SEG>(g); }
PBT(lazy_large, 2, "every case: tens of thousands of elements, seven snapshots re-read") { rbt_big<BB::lazy_segtree::PersistentRedBlackTreeNode<V, v_op, v_e, A, v_map, a_comp, a_id>, V, SEG | LAZY>(g); }
PBT(rev_lazy_large, 2, "every case: tens of thousands of elements, seven snapshots re-read") { rbt_big<BB::reversible_lazy_segtree::PersistentRedBlackTreeNode<C, c_op, c_e, A, c_map, a_comp, a_id>, C, SEG | LAZY | REV>(g); }
