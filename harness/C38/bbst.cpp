// FLAGS: -fsanitize-coverage=trace-pc -fno-tree-loop-distribute-patterns -mbmi -mbmi2
// MODES: opt
#include "cost.hpp"
#include "library/datastructure/bbst/implicit_treap.hpp"
#include "library/datastructure/bbst/implicit_treap_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp"
#include "library/datastructure/bbst/red_black_tree.hpp"
#include "library/datastructure/bbst/red_black_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_tree.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/persistent_array.hpp"
#include "library/datastructure/dynamic_sequence.hpp"
#include "library/datastructure/range_foldable_dynamic_sequence.hpp"
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/splay_tree_set.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
using namespace hv;
static constexpr int n0 = 1 << 11, n1 = 1 << 16;
// positions of insertion: 0 back, 1 front, 2 middle, 3 random
static size_t at(int how, int size, int r) { return how == 0 ? size : how == 1 ? 0 : how == 2 ? size / 2 : r % (size + 1); }
template <class T> static void treap(Gen& g, const char* nm) {
    for (int how = 0; how < 4; ++how) grows(g, std::string(nm) + ", insertions " + std::to_string(how), o_nlog, n0, n1, [how](int n, Bulk& b) { std::vector<int> r(2 * n); for (auto& x : r) x = b.in(0, n - 1); double c = cost([&] { T t; for (int i = 0; i < n; ++i) t.insert(at(how, i, r[i]), W(w_of(i)));
        for (int i = 0; i < n; ++i) { K << W(t[r[i]]); if (i % 4 == 0) { T u = t.split(r[n + i]); if (i % 8) t.merge(u); else { u.merge(t); t = u; } } if (i % 4 == 1) t.rotate(r[n + i]); }
        for (int i = 0; i < n - 1; ++i) t.erase(size_t(how == 0 ? t.size() - 1 : how == 1 ? 0 : r[i] % t.size())); t.free(); }); return c; });
}
PBT(treap_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") { treap<suisen::DynamicArray<W>>(g, "DynamicArray"); }
PBT(treap_fold_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") {
    using T = suisen::DynamicSegmentTree<W, w_op, w_e>; treap<T>(g, "DynamicSegmentTree");
    grows(g, "DynamicSegmentTree prod/set", o_nlog, n0, n1, [](int n, Bulk& b) { std::vector<W> a(n, w_of(1)); T t(a); std::vector<std::pair<int, int>> q(n); for (auto& x : q) x = b.seg(n); double c = cost([&] { for (auto [l, r] : q) { K << t.prod(l, r); if (l < n) t.set(l, w_of(r)); } }); t.free(); return c; });
}
PBT(treap_build_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") { grows(g, "DynamicArray from n values", o_n, n0, n1, [](int n, Bulk& b) { std::vector<W> a(n, w_of(1)); double c = cost([&] { suisen::DynamicArray<W> t(a); K << t.dump(); t.free(); }); return c; }, 2.5); }
struct BW { W f, b; }; static BW b_op(BW x, BW y) { return { w_op(x.f, y.f), w_op(y.b, x.b) }; } static BW b_e() { return {}; } static BW b_tog(BW x) { std::swap(x.f, x.b); return x; } static BW b_of(u64 x) { W w = w_of(x); return { w, w }; } static BW b_map(W, BW x, int) { return x; } static W b_comp(W a, W) { return a; }
PBT(treap_reverse_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") {
    grows(g, "ReversibleDynamicArray reverse/get", o_nlog, n0, n1, [](int n, Bulk& b) { std::vector<W> a(n, w_of(1)); suisen::ReversibleDynamicArray<W> t(a); std::vector<std::pair<int, int>> q(n); for (auto& x : q) x = b.seg(n); double c = cost([&] { for (auto [l, r] : q) { t.reverse(l, r); K << W(t[l / 2]); } }); t.free(); return c; });
    grows(g, "ReversibleDynamicLazySegmentTree reverse/apply/prod", o_nlog, n0, n1, [](int n, Bulk& b) { std::vector<BW> a(n, b_of(1)); suisen::ReversibleDynamicLazySegmentTree<BW, b_op, b_e, b_tog, W, b_map, b_comp, w_e> t(a); std::vector<std::pair<int, int>> q(n); for (auto& x : q) x = b.seg(n); double c = cost([&] { for (auto [l, r] : q) { t.reverse(l, r); t.apply(l / 2, r, w_of(1)); K << t.prod(l, r); } }); t.free(); return c; });
}
PBT(sortable_cost, 2, "every case: cost at two sizes compared") {
    for (int how = 0; how < 2; ++how) grows(g, "SortableSegmentTree", o_nlog2, n0, 1 << 14, [how](int n, Bulk& b) { auto p = b.perm(n); std::vector<std::pair<int, BW>> a(n); for (int i = 0; i < n; ++i) a[i] = { p[i], b_of(i) }; suisen::SortableSegmentTree<BW, b_op, b_e, b_tog, int> t(a); std::vector<std::pair<int, int>> q(n); for (auto& x : q) { x = b.seg(n); if (how) x = { x.first, std::min(n, x.first + 40) }; } return cost([&] { int i = 0; for (auto [l, r] : q) { if (i++ % 2) t.sort_asc(l, r); else t.sort_dsc(l, r); K << t.prod(l / 2, r); } }); });
}
template <class N> static void rbt(Gen& g, const char* nm, int N1, bool free) {
    using T = typename N::tree_type;
    for (int how = 0; how < 4; ++how) grows(g, std::string(nm) + ", insertions " + std::to_string(how), o_nlog, n0, N1, [how, free](int n, Bulk& b) { N::init_pool(free ? 2 * n + 100 : n * 300); std::vector<int> r(2 * n); for (auto& x : r) x = b.in(0, n - 1); return cost([&] { T t = N::empty_tree(); for (int i = 0; i < n; ++i) t = N::insert(t, at(how, i, r[i]), w_of(i));
        W v; for (int i = 0; i < n; ++i) { std::tie(t, v) = N::get(t, r[i]); K << v; if (i % 4 == 0) { auto [x, y] = N::split(t, how == 0 ? 1 : how == 1 ? n - 1 : r[n + i]); t = i % 8 ? N::merge(x, y) : N::merge(y, x); } t = N::set(t, r[i], w_of(i)); }
        if (free) { for (int i = 0; i < n - 1; ++i) std::tie(t, v) = N::erase(t, how == 0 ? n - i - 1 : how == 1 ? 0 : r[i] % (n - i)); N::free(t); } }); });
}
PBT(rbt_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") { rbt<suisen::bbst::RedBlackTreeNode<W>>(g, "RedBlackTree", 1 << 15, true); }
PBT(rbt_fold_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") { rbt<suisen::bbst::segtree::RedBlackTreeNode<W, w_op, w_e>>(g, "RedBlackSegmentTree", 1 << 15, true); }
PBT(rbt_persistent_cost, 2, "every case: cost at two sizes compared") { rbt<suisen::bbst::PersistentRedBlackTreeNode<W>>(g, "PersistentRedBlackTree", 1 << 14, false); }
PBT(persistent_cost, 2, "every case: cost at two sizes compared") {
    grows(g, "PersistentSegmentTree set/prod", o_nlog, n0, n1, [](int n, Bulk& b) { using T = suisen::PersistentSegmentTree<W, w_op, w_e>; T::init_pool(n * 40); std::vector<W> a(n, w_of(1)); auto p = b.perm(n); return cost([&] { T t(a); for (int i : p) t = t.set(i, w_of(i)), K << t.prod(i / 2, n - i / 3) << t.get(i); }); });
    grows(g, "PersistentArray set/get", o_nlog, n0, n1, [](int n, Bulk& b) { using T = suisen::PersistentArray<i64, 4>; T::init_pool(n * 12); std::vector<i64> a(n, 1); auto p = b.perm(n); return cost([&] { T t(a); for (int i : p) t = t.set(i, i), K << t.get(i); }); });
}
template <class T> static void seq(Gen& g, const char* nm) {
    for (int how = 0; how < 4; ++how) grows(g, std::string(nm) + ", insertions " + std::to_string(how), o_nlog, n0, n1, [how](int n, Bulk& b) { std::vector<int> r(2 * n); for (auto& x : r) x = b.in(0, n - 1); return cost([&] { T t; for (int i = 0; i < n; ++i) t.insert(at(how, i, r[i]), w_of(i)); for (int i = 0; i < n; ++i) { K << W(t[how == 3 ? r[i] : i]); if (i % 4 == 0) { T u = t.split(r[n + i]); t.concat(std::move(u)); } } for (int i = 0; i < n - 1; ++i) t.erase(how == 0 ? t.size() - 1 : how == 1 ? 0 : r[i] % t.size()); }); });
}
PBT(sequence_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") { seq<suisen::DynamicSequence<W>>(g, "DynamicSequence"); }
PBT(sequence_fold_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") { seq<suisen::RangeFoldableDynamicSequence<W, w_op, w_e>>(g, "RangeFoldableDynamicSequence"); }
template <class T, class V> static void map_(Gen& g, const char* nm, V (*of)(u64)) {
    for (int how = 0; how < 4; ++how) grows(g, std::string(nm) + ", keys " + std::to_string(how), o_nlog, n0, n1, [how, of](int n, Bulk& b) { std::vector<i64> k(n); for (int i = 0; i < n; ++i) k[i] = how == 0 ? i : how == 1 ? n - i : how == 2 ? (i % 2 ? i : -i) : b.range(-1000000000, 1000000000); std::vector<int> r(n); for (auto& x : r) x = b.in(0, n - 1); return cost([&] { T t; for (int i = 0; i < n; ++i) t.insert(k[i], of(i)); for (int i = 0; i < n; ++i) K << t.contains(k[i]) << t.contains(k[n - 1 - i]) << t.get_or_default(k[r[i]], of(0)); for (int i = 0; i < t.size(); ++i) K << t.kth_entry(i); for (int i = 0; i < n; ++i) { if (i % 8 == 0) { T u = t.split_by_key(k[r[i]]); t.merge(std::move(u)); } if (i % 2) t.erase_key(k[i]); } }); });
}
static i64 ofi(u64 x) { return x; }
PBT(splay_map_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") { map_<suisen::SplayTreeMap<i64, i64>, i64>(g, "SplayTreeMap", ofi); }
PBT(foldable_map_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") { map_<suisen::RangeFoldableMap<i64, W, w_op, w_e>, W>(g, "RangeFoldableMap", w_of); }
PBT(set_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") {
    for (int how = 0; how < 3; ++how) grows(g, "SplayTreeSet, keys " + std::to_string(how), o_nlog, n0, n1, [how](int n, Bulk& b) { std::vector<i64> k(n); for (int i = 0; i < n; ++i) k[i] = how == 0 ? i : how == 1 ? n - i : b.range(-1000000000, 1000000000); return cost([&] { suisen::SplayTreeSet<i64> t; for (i64 x : k) t.insert(x); for (i64 x : k) K << t.contains(x); for (int i = 0; i < t.size(); ++i) K << t[i]; for (i64 x : k) t.erase(x); }); });
    for (int how = 0; how < 2; ++how) grows(g, "fenwick_tree_set", o_nlog, n0, n1, [how](int n, Bulk& b) { auto p = b.perm(n); return cost([&] { suisen::fenwick_tree_set t(n); for (int i = 0; i < n; ++i) if (how == 0 || p[i] % 64 == 0) t.insert(p[i]); for (int i = 0; i < n; ++i) K << t.max_leq(i) << t.min_geq(i) << t.count_lt(i) << t.kth_element(i % t.size()); for (int i = 0; i < n; ++i) t.erase(p[i]); }); });
}
PBT(trie_cost, 2, "every case: cost at 2^11 and at 2^16 elements compared") {
    for (int how = 0; how < 3; ++how) grows(g, "binary tries", o_n, n0, n1, [how](int n, Bulk& b) { std::vector<u64> k(n); for (int i = 0; i < n; ++i) k[i] = how == 0 ? i : how == 1 ? b.raw(1u << 31) : u64(7); return cost([&] { suisen::BinaryTrie<unsigned, 31> t; suisen::BinaryTriePatricia<unsigned, 31> u; for (u64 x : k) t.insert(x), u.insert(x); for (u64 x : k) K << t.count(x) << t.xor_min(x) << u.xor_min(x) << t.kth_min(x % n) << u.xor_kth_min(0, x % n); for (u64 x : k) t.erase(x), u.erase(x); }); });
}
