#include "value.hpp"
#include "library/datastructure/bit_vector.hpp"
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/compressed_wavelet_matrix.hpp"
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/slope_trick.hpp"
#include "library/datastructure/sparse_table.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/datastructure/permutation_tree.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/priority_queue.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/util/range_set.hpp"
#include "library/datastructure/util/dynamic_bitset.hpp"
#include "library/datastructure/util/static_bitset.hpp"
#include "library/datastructure/util/priority_sum.hpp"
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
#include "library/datastructure/union_find/merge_history_forest.hpp"
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/splay_tree_set.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/lazy_eval_map.hpp"
#include "library/datastructure/dynamic_sequence.hpp"
#include "library/datastructure/range_foldable_dynamic_sequence.hpp"
#include "library/datastructure/lazy_eval_dynamic_sequence.hpp"
using namespace hv; using namespace suisen;
static const char* const RULE = "an object is changed after another one was copied, moved, assigned or created";
static u64 wop(u64 a, u64 b) { return a + b; } static u64 we() { return 0; }
static u64 mapq(u64 f, u64 x) { return f + x; } static u64 compq(u64 f, u64 g) { return f + g; }
static i64 iop(i64 a, i64 b) { return a + b; } static i64 ie() { return 0; } static i64 imin(i64 a, i64 b) { return std::min(a, b); } static i64 iinf() { return 1ll << 60; }

struct VBit { using T = BitVector; static T init(u64 x) { Rnd r(x); int n = r(700); auto a = r.vec(n, 0, 1); return T(n, [&](int i) { return a[i]; }); } static void mut(T& t, u64 x) { Rnd r(x); int n = r(700); auto a = r.vec(n, 0, 1); t = T(n, [&](int i) { return a[i]; }); mutn(t, n); } static void mutn(T&, int) {} static V obs(T& t) { V o; o.push_back(t.rank(true, 0)); for (int k = 0; k < 700; k += k < 8 ? 1 : 11) o.push_back(t.select(true, k)), o.push_back(t.select(false, k)); return o; } };
PBT(bit_vector_values, 2500, RULE) { values<VBit>(g); }
struct VWavelet { struct T { WaveletMatrix<int, 5> w; int n = 0; T() {} explicit T(const std::vector<int>& a) : w(a), n(a.size()) {} }; static T init(u64 x) { Rnd r(x); return T(r.vec(r(12), 0, 31)); } static void mut(T& t, u64 x) { Rnd r(x); auto a = r.vec(r(12), 0, 31); t.w = WaveletMatrix<int, 5>(a); t.n = a.size(); } static V obs(T& t) { V o; for (int k = 0; k < t.n; ++k) o.push_back(t.w[k]), o.push_back(t.w.range_kth_smallest(0, t.n, k)), o.push_back(t.w.rank(7, k)); return o; } };
PBT(wavelet_matrix_values, 1500, RULE) { values<VWavelet>(g); }
struct VCHT { using T = ConvexHullTrick<i64, true>; static T init(u64 x) { T t; Rnd r(x); for (int k = r(5); k--;) t.add_line(r.in(-9, 9), r.in(-30, 30)); return t; } static void mut(T& t, u64 x) { Rnd r(x); t.add_line(r.in(-9, 9), r.in(-30, 30)); } static V obs(T& t) { V o; o.push_back(t.has_line()); if (t.has_line()) for (int x = -8; x <= 8; ++x) o.push_back((i64)t.query(x)); return o; } };
PBT(convex_hull_trick_values, 2500, RULE) { values<VCHT>(g); }
template <class A> struct VAgg { using T = A; static T init(u64 x) { Rnd r(x); T t; for (int k = r(6); k--;) t.push_back(w_of(r(9))); return t; } static void mut(T& t, u64 x) { Rnd r(x); switch (r(6)) { case 0: case 1: t.push_back(w_of(r(9))); break; case 2: if constexpr (std::is_same_v<T, DequeAggregation<W, w_op, w_e>>) { t.push_front(w_of(r(9))); } break; case 3: if (t.size()) t.pop_front(); break; case 4: if constexpr (std::is_same_v<T, DequeAggregation<W, w_op, w_e>>) { if (t.size()) t.pop_back(); } break; default: { T u(t.begin(), t.end()); u.push_back(w_of(3)); t = u; } } } static V obs(T& t) { V o{ (i64)t.prod().h, (i64)t.prod().p, t.size() }; for (auto& w : t) o.push_back(w.h); if (t.size()) o.push_back(t.front().h), o.push_back(t.back().h); return o; } };
static int q_app(int s, int x) { return int((s * 31ll + x) % 1000003); } static int q_e() { return 7; } static i64 q_merge(int l, int r) { return l * 1000003ll + r; }
struct VQueue { using T = QueueAggregation<int, int, q_e, q_app, i64, q_merge>; static T init(u64 x) { Rnd r(x); T t; for (int k = r(6); k--;) t.push_back(r(9)); return t; } static void mut(T& t, u64 x) { Rnd r(x); if (r(3) || !t.size()) { t.push_back(r(9)); } else { t.pop_front(); } } static V obs(T& t) { V o{ t.size() }; for (auto& w : t) o.push_back(w); T u = t; while (u.size()) o.push_back(u.front()), u.pop_front(); return o; } };
PBT(queue_aggregation_values, 2500, RULE) { values<VQueue>(g); }
PBT(deque_aggregation_values, 2500, RULE) { values<VAgg<DequeAggregation<W, w_op, w_e>>>(g); }
struct VSlope { using T = SlopeTrick<i64>; static T init(u64) { return T(); } static void mut(T& t, u64 x) { Rnd r(x); int a = r.in(-9, 9); switch (r(8)) { case 0: t.add_const(a); break; case 1: t.add_right(a); break; case 2: t.add_left(a); break; case 3: t.add_abs(a); break; case 4: t.cumulative_min_left(); break; case 5: t.cumulative_min_right(); break; case 6: t.translate(a); break; default: t.sliding_window_minimum(std::min(a, 0), std::max(a, 0)); } } static V obs(T& t) { V o; auto [l, m, r] = t.lines(); put(o, l), put(o, r); o.push_back(m); o.push_back(t.min()); return o; } };
PBT(slope_trick_values, 2500, RULE) { values<VSlope>(g); }
struct VSparse { using T = SparseTable<i64, imin, iinf>; static T init(u64 x) { Rnd r(x); return T(r.vec<i64>(9, -20, 20)); } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; for (int l = 0; l <= 9; ++l) for (int r = l; r <= 9; ++r) o.push_back(t(l, r)); return o; } };
PBT(sparse_table_values, 2500, RULE) { values<VSparse>(g); }
struct VPermT { using T = PermutationTree; static T init(u64 x) { Rnd r(x); return T(r.perm(r.in(1, 8))); } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; rec(t, o); return o; } static void rec(const T& t, V& o) { put(o, V{ t.begin_index(), t.end_index(), t.begin_value(), t.end_value(), t.is_join_node(), (i64)t.size() }); for (auto& c : t) rec(c, o); } };
PBT(permutation_tree_values, 2500, RULE) { values<VPermT>(g); }
struct VTrie { using T = BinaryTrie<int, 6>; static T init(u64 x) { T t; Rnd r(x); for (int k = r(5); k--;) t.insert(r(64)); return t; } static void mut(T& t, u64 x) { Rnd r(x); if (r(3)) t.insert(r(64), r.in(1, 3)); else t.erase(r(64)); if (t.size() && r(3) == 0) t.erase_all(t.xor_min(0)); } static V obs(T& t) { V o{ t.size() }; for (int i = 0; i < t.size(); ++i) o.push_back(t.kth_min(i)); return o; } };
struct VPat { using T = BinaryTriePatricia<int, 6>; static T init(u64 x) { T t; Rnd r(x); for (int k = r(5); k--;) t.insert(r(64)); return t; } static void mut(T& t, u64 x) { Rnd r(x); if (r(3)) t.insert(r(64), r.in(1, 3)); else { int v = r(64); if (t.count(v)) t.erase(v); } if (r(12) == 0) t.clear(); } static V obs(T& t) { V o{ t.size() }; for (int i = 0; i < t.size(); ++i) o.push_back(t.kth_min(i)); for (int v = 0; v < 64; ++v) o.push_back(t.count(v)); return o; } };
template <class H> struct VHeap { using T = H; static T init(u64 x) { Rnd r(x); T t; for (int k = r(6); k--;) t.push(r(20)); return t; } static void mut(T& t, u64 x) { Rnd r(x); if (r(3) || !t.size()) t.push(r(20)); else pop(t, r(2)); }
    static int pop(T& t, int w) { if constexpr (std::is_same_v<T, DoubleEndedPriorityQueue<int>> || std::is_same_v<T, IntervalHeap<int>>) return w ? t.pop_min() : t.pop_max(); else return (void)w, t.pop(); }
    static V obs(T& t) { V o, back; while (t.size()) { int v = pop(t, o.size() % 2); o.push_back(v); } for (int v : o) t.push(v); return o; } };
PBT(min_binary_heap_values, 2500, RULE) { values<VHeap<MinBinaryHeap<int>>>(g); }
PBT(max_binary_heap_values, 2500, RULE) { values<VHeap<MaxBinaryHeap<int>>>(g); }
PBT(interval_heap_values, 2500, RULE) { values<VHeap<IntervalHeap<int>>>(g); }
PBT(double_ended_priority_queue_values, 2500, RULE) { values<VHeap<DoubleEndedPriorityQueue<int>>>(g); }
PBT(binary_trie_values, 2500, RULE) { values<VTrie>(g); }
PBT(binary_trie_patricia_values, 2500, RULE) { values<VPat>(g); }
struct VPSum { using T = MaximumPrioritySum<i64>; static T init(u64 x) { return T(int(x % 4)); } static void mut(T& t, u64 x) { Rnd r(x); if (r(4)) t.insert(r.in(-9, 9)); else t.set_k(r(5)); } static V obs(T& t) { return { t.get_sum(), t.size(), t.get_k() }; } };
PBT(priority_sum_values, 2500, RULE) { values<VPSum>(g); }
struct VRange { using T = RangeSet<int>; static T init(u64) { return T(); } static void mut(T& t, u64 x) { Rnd r(x); auto [a, b] = r.seg(20); if (r(3)) t.insert(a, b); else t.erase(a, b); } static V obs(T& t) { V o{ t.number_of_elements(), t.number_of_ranges() }; for (auto [l, r] : t) o.push_back(l), o.push_back(r); for (int i = 0; i < 20; ++i) o.push_back(t.contains(i)), o.push_back(t.minimum_excluded(i)); return o; } };
PBT(range_set_values, 2500, RULE) { values<VRange>(g); }
struct VDBit { using T = DynamicBitSet; static T init(u64 x) { return T(x % 140, x & 1); } static void mut(T& t, u64 x) { Rnd r(x); switch (r(6)) { case 0: t.push_back(r(2)); break; case 1: if (t.size()) t.pop_back(); break; case 2: t <<= r(70); break; case 3: t >>= r(70); break; case 4: if (t.size()) t[r(t.size())] = r(2); break; default: t.resize(r(140), r(2)); } } static V obs(T& t) { V o{ t.size() }; const T& c = t; for (int i = 0; i < t.size(); ++i) o.push_back(c[i]); return o; } };
PBT(dynamic_bitset_values, 2500, RULE) { values<VDBit>(g); }
struct VUF { using T = UnionFind; static T init(u64 x) { return T(x % 8 + 1); } static void mut(T& t, u64 x) { Rnd r(x); int n = t.groups().empty() ? 1 : 0; for (auto& c : t.groups()) n += c.size(); t.merge(r(n), r(n)); } static V obs(T& t) { V o; for (auto& c : t.groups()) { auto d = c; std::sort(d.begin(), d.end()); o.push_back(-1); put(o, d); } return o; } };
PBT(union_find_values, 2500, RULE) { values<VUF>(g); }
struct VLUF { using T = LinkedUnionFind; static T init(u64) { return T(8); } static void mut(T& t, u64 x) { Rnd r(x); t.merge(r(8), r(8)); } static V obs(T& t) { V o; for (int i = 0; i < 8; ++i) { auto c = t.connected_component(i); std::sort(c.begin(), c.end()); put(o, c); } return o; } };
PBT(linked_union_find_values, 2500, RULE) { values<VLUF>(g); }
struct VUUF { using T = UndoUnionFind; static T init(u64) { return T(8); } static void mut(T& t, u64 x) { Rnd r(x); if (r(4)) t.merge(r(8), r(8)); else if (r(2)) t.snapshot(); else t.rollback(); } static V obs(T& t) { V o; for (int i = 0; i < 8; ++i) for (int j = 0; j < i; ++j) o.push_back(t.same(i, j)); return o; } };
PBT(undo_union_find_values, 2500, RULE) { values<VUUF>(g); }
struct VWUF { using T = WeightedUnionFind<i64>; static T init(u64) { return T(8); } static void mut(T& t, u64 x) { Rnd r(x); int a = r(8), b = r(8); if (!t.same(a, b)) t.merge(a, b, r.in(-9, 9)); } static V obs(T& t) { V o; for (int i = 0; i < 8; ++i) for (int j = 0; j < i; ++j) { o.push_back(t.same(i, j)); if (t.same(i, j)) o.push_back(t.diff(i, j)); } return o; } };
PBT(weighted_union_find_values, 2500, RULE) { values<VWUF>(g); }
struct VMHF { using T = MergeHistoryForest; static T init(u64) { return T(8); } static void mut(T& t, u64 x) { Rnd r(x); if (r(3)) t.merge(r(8), r(8)); else t.merge_simultaneously({ { r(8), r(8) }, { r(8), r(8) } }); } static V obs(T& t) { V o{ t.node_num(), t.current_time() }; for (int tm = 0; tm <= t.current_time(); ++tm) for (int i = 0; i < 8; ++i) { auto c = t.group(i, tm); std::sort(c.begin(), c.end()); put(o, c); } return o; } };
PBT(merge_history_forest_values, 2500, RULE) { values<VMHF>(g); }
// move-only owners: splay tree maps and sequences
template <class M> struct VMap { using T = M; static T init(u64) { return T(); } static void mut(T& t, u64 x) { Rnd r(x); switch (r(5)) { case 0: case 1: t.insert(r(12), r(100)); break; case 2: t.erase_key(r(12)); break; case 3: { auto u = t.split_by_key(r(12)); if (r(2)) { t.merge(std::move(u)); } } break; default: { T u; for (int k = r(4); k--;) u.insert(r(12), r(100)); t.swap(u); } } } static V obs(T& t) { V o{ t.size() }; for (int i = 0; i < t.size(); ++i) { auto [k, v] = t.kth_entry(i); o.push_back(k), o.push_back(v); } return o; } };
PBT(splay_tree_map_values, 2500, RULE) { values<VMap<SplayTreeMap<int, i64>>>(g); }
PBT(range_foldable_map_values, 2500, RULE) { values<VMap<RangeFoldableMap<int, i64, iop, ie>>>(g); }
PBT(lazy_eval_map_values, 2500, RULE) { values<VMap<LazyEvalMap<int, u64, wop, we, u64, mapq, compq, we>>>(g); }
struct VSet { using T = SplayTreeSet<int>; static T init(u64) { return T(); } static void mut(T& t, u64 x) { Rnd r(x); switch (r(4)) { case 0: case 1: t.insert(r(12)); break; case 2: t.erase(r(12)); break; default: { T u; for (int k = r(4); k--;) u.insert(r(12)); t = std::move(u); } } } static V obs(T& t) { V o{ t.size() }; for (int i = 0; i < t.size(); ++i) o.push_back(t[i]); return o; } };
PBT(splay_tree_set_values, 2500, RULE) { values<VSet>(g); }
template <class S> struct VSeq { using T = S; static T init(u64) { return T(); } static void mut(T& t, u64 x) { Rnd r(x); int n = t.size(); switch (r(6)) { case 0: case 1: t.insert(r(n + 1), r(100)); break; case 2: if (n) t.erase(r(n)); break; case 3: { auto u = t.split(r(n + 1)); if (r(2)) { t.concat_left(std::move(u)); } } break; case 4: { auto [l, e] = r.seg(n); t.reverse(l, e); } break; default: { T u; for (int k = r(4); k--;) u.push_back(r(100)); if (r(2)) t.concat(std::move(u)); else t = std::move(u); } } } static V obs(T& t) { V o{ t.size() }; for (int i = 0; i < t.size(); ++i) o.push_back((i64)t[i]); return o; } };
PBT(dynamic_sequence_values, 2500, RULE) { values<VSeq<DynamicSequence<i64>>>(g); }
PBT(range_foldable_dynamic_sequence_values, 2500, RULE) { values<VSeq<RangeFoldableDynamicSequence<i64, iop, ie>>>(g); }
PBT(lazy_eval_dynamic_sequence_values, 2500, RULE) { values<VSeq<LazyEvalDynamicSequence<u64, wop, we, u64, mapq, compq, we>>>(g); }
