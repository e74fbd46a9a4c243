#include "large.hpp"
#include "rbt_common.hpp"
#include "library/datastructure/dynamic_sequence.hpp"
#include "library/datastructure/range_foldable_dynamic_sequence.hpp"
#include "library/datastructure/lazy_eval_dynamic_sequence.hpp"
#include "library/datastructure/bbst/red_black_tree.hpp"
#include "library/datastructure/bbst/red_black_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_reversible_lazy_segment_tree.hpp"
V v_map2(A f, V x) { return { s_map(f, x.s), x.n }; }
C c_map2(A f, C x) { return { f.a * x.s + f.b * Z(x.n), x.n }; }
template <class Seq, class X, int F> static void seq_big(Gen& g) {
    using O = Ops<X>; int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); std::vector<X> a; Seq t; auto nv = [&] { return O::of(b.raw(P)); };
    bool front = g.coin(); for (int i = 0; i < n; ++i) { X v = nv(); if (front) t.push_front(v); else t.push_back(v); a.push_back(v); }
    if (front) std::reverse(a.begin(), a.end());
    auto fold = [&](int l, int r) { X s; for (int i = l; i < r; ++i) s = O::op(s, a[i]); return s; };
    for (int k = 0; k < 600; ++k) {
        n = a.size();
        switch (b.raw(8)) {
            case 0: { int i = b.in(0, n); X v = nv(); t.insert(i, v); a.insert(a.begin() + i, v); } break;
            case 1: { int i = b.in(0, n - 1); t.erase(i); a.erase(a.begin() + i); } break;
            case 2: { int i = b.in(0, n); Seq r = t.split(i); EQ(t.size(), i); if (b.coin()) t.concat(std::move(r)); else { t.concat_left(std::move(r)); std::rotate(a.begin(), a.begin() + i, a.end()); } } break;
            case 3: if constexpr (F & REV) { auto [l, r] = b.seg(n); t.reverse(l, r); std::reverse(a.begin() + l, a.begin() + r); } break;
            case 4: if constexpr (F & LAZY) { auto [l, r] = b.seg(n); A f{ (i64)b.raw(P - 1) + 1, (i64)b.raw(P) }; t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = O::ap(f, a[i]); } break;
            case 5: if constexpr (F & SEG) if (k % 4 == 0) { auto [l, r] = b.seg(n); EQ(t.prod(l, r), fold(l, r)); } break;
            case 6: { int i = b.in(0, n - 1); X v = nv(); t[i] = v; a[i] = v; } break;
            default: for (int j = 0; j < 10; ++j) { int i = b.in(0, n - 1); EQ(X(t[i]), a[i]); }
        }
        EQ(t.size(), (int)a.size());
    }
    for (int i = 0; i < (int)a.size(); ++i) EQ(X(t[i]), a[i]);
    if constexpr (F & SEG) EQ(t.prod_all(), fold(0, a.size()));
}
PBT(sequence_large, 3, "every case: more than 50000 elements") { seq_big<suisen::DynamicSequence<V>, V, REV>(g); }
PBT(foldable_large, 3, "every case: more than 50000 elements") { seq_big<suisen::RangeFoldableDynamicSequence<V, v_op, v_e>, V, SEG>(g); }
PBT(lazy_sequence_large, 3, "every case: more than 50000 elements") { seq_big<suisen::LazyEvalDynamicSequence<C, c_op, c_e, A, c_map2, a_comp, a_id>, C, SEG | LAZY | REV>(g); }
namespace BB = suisen::bbst;
template <class N, class X, int F> static void rbt_big(Gen& g) {
    using T = typename N::tree_type; using O = Ops<X>; int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); len_bad = false; N::init_pool(250000);
    auto nv = [&] { return O::of(b.raw(P)); }; std::vector<X> a(n); for (auto& x : a) x = nv();
    T t = N::empty_tree(); int how = g.raw(3); if (how == 0) t = N::build(a); else if (how == 1) for (auto& x : a) t = N::push_back(t, x); else for (int i = n; i--;) t = N::push_front(t, a[i]);
    auto fold = [&](int l, int r) { X s; for (int i = l; i < r; ++i) s = O::op(s, a[i]); return s; };
    for (int k = 0; k < 600; ++k) {
        n = a.size();
        switch (b.raw(8)) {
            case 0: { int i = b.in(0, n); X v = nv(); t = N::insert(t, i, v); a.insert(a.begin() + i, v); } break;
            case 1: { int i = b.in(0, n - 1); X v; std::tie(t, v) = N::erase(t, i); EQ(v, a[i]); a.erase(a.begin() + i); } break;
            case 2: { auto [l, r] = b.seg(n); auto [x, y, z] = N::split_range(t, l, r); t = N::merge(N::merge(x, z), y); std::rotate(a.begin() + l, a.begin() + r, a.end()); } break;
            case 3: if constexpr (F & REV) { auto [l, r] = b.seg(n); t = N::reverse(t, l, r); std::reverse(a.begin() + l, a.begin() + r); } break;
            case 4: if constexpr (F & LAZY) { auto [l, r] = b.seg(n); A f{ (i64)b.raw(P - 1) + 1, (i64)b.raw(P) }; t = N::apply(t, l, r, f); for (int i = l; i < r; ++i) a[i] = O::ap(f, a[i]); } break;
            case 5: if constexpr (F & SEG) if (k % 4 == 0) { auto [l, r] = b.seg(n); X v; std::tie(t, v) = N::prod(t, l, r); EQ(v, fold(l, r)); } break;
            case 6: { int i = b.in(0, n - 1); X v = nv(); t = N::set(t, i, v); a[i] = v; } break;
            default: for (int j = 0; j < 10; ++j) { int i = b.in(0, n - 1); X v; std::tie(t, v) = N::get(t, i); EQ(v, a[i]); }
        }
        EQ(N::size(t), (int)a.size());
    }
    N::check_rbtree_properties(t); std::vector<X> d; N::dump(t, std::back_inserter(d)); EQ(d, a);
    if constexpr (F & SEG) EQ(N::prod_all(t), fold(0, a.size()));
    CK(!len_bad); N::free(t); EQ(N::node_num(), 0);
}
PBT(rbt_large, 3, "every case: more than 50000 elements") { rbt_big<BB::RedBlackTreeNode<V>, V, 0>(g); }
PBT(rbt_segtree_large, 3, "every case: more than 50000 elements") { rbt_big<BB::segtree::RedBlackTreeNode<V, v_op, v_e>, V, SEG>(g); }
PBT(rbt_lazy_large, 3, "every case: more than 50000 elements") { rbt_big<BB::lazy_segtree::RedBlackTreeNode<V, v_op, v_e, A, v_map, a_comp, a_id>, V, SEG | LAZY>(g); }
PBT(rbt_rev_lazy_large, 3, "every case: more than 50000 elements") { rbt_big<BB::reversible_lazy_segtree::RedBlackTreeNode<C, c_op, c_e, A, c_map, a_comp, a_id>, C, SEG | LAZY | REV>(g); }
