#include "value.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/commutative_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_dual_segment_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
#include "library/datastructure/fenwick_tree/rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
#include "library/datastructure/persistent_array.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
#include "library/range_query/range_set_range_composite.hpp"
#include "library/range_query/static_range_mode_query.hpp"
#include "library/range_query/static_range_inversion_number_query.hpp"
#include "library/range_query/static_range_xored_mex_query.hpp"
using namespace hv; using namespace suisen;
static const char* const RULE = "an object is changed after another one was copied, moved, assigned or created";
static u64 uop(u64 a, u64 b) { return a + b; } static u64 uz() { return 0; } static u64 un(u64 a) { return -a; }
static i64 iop(i64 a, i64 b) { return a + b; } static i64 ie() { return 0; }
constexpr int N = 9;
static std::vector<W> words(Rnd& r, int n) { std::vector<W> a(n); for (auto& w : a) w = w_of(r(50)); return a; }
static void putw(V& o, const W& w) { o.push_back(w.h), o.push_back(w.p); }

struct VSeg { using T = SegmentTree<W, w_op, w_e>; static T init(u64 x) { Rnd r(x); return T(words(r, N)); } static void mut(T& t, u64 x) { Rnd r(x); if (r(5)) t.set(r(N), w_of(r(50))); else t = T(words(r, N)); } static V obs(T& t) { V o; for (int l = 0; l <= N; ++l) for (int r = l; r <= N; ++r) putw(o, t(l, r)); putw(o, t.all_prod()); return o; } };
PBT(segment_tree_values, 2000, RULE) { values<VSeg>(g); }
struct VLazy { using T = LazySegmentTree<u64, uop, uz, u64, uop, uop, uz>; static T init(u64 x) { Rnd r(x); return T(r.vec<u64>(N, 0, 99)); } static void mut(T& t, u64 x) { Rnd r(x); auto [a, b] = r.seg(N); if (r(3)) t.apply(a, b, u64(r(9)) << 20); else t.set(r(N), r(99)); } static V obs(T& t) { V o; for (int i = 0; i < N; ++i) o.push_back(t.get(i)); return o; } };
PBT(lazy_segment_tree_values, 2000, RULE) { values<VLazy>(g); }
template <class D> struct VDual { using T = D; static T init(u64 x) { Rnd r(x); return T(r.vec<u64>(N, 0, 99)); } static void mut(T& t, u64 x) { Rnd r(x); auto [a, b] = r.seg(N); t.apply(a, b, u64(r(99))); } static V obs(T& t) { V o; for (int i = 0; i < N; ++i) o.push_back(t[i]); return o; } };
PBT(dual_segment_tree_values, 2000, RULE) { values<VDual<DualSegmentTree<u64, u64, uop, uop, uz>>>(g); }
PBT(commutative_dual_segment_tree_values, 2000, RULE) { values<VDual<CommutativeDualSegmentTree<u64, u64, uop, uop, uz>>>(g); }
struct VLiChao { using T = LiChaoSegmentTree<i64>; static T init(u64) { std::vector<i64> q; for (int i = -6; i <= 6; ++i) q.push_back(i); return T(q); } static void mut(T& t, u64 x) { Rnd r(x); if (r(2)) t.add_line(r.in(-9, 9), r.in(-30, 30)); else { int a = r.in(-6, 6), b = r.in(-6, 6); t.add_segment(std::min(a, b), std::max(a, b), r.in(-9, 9), r.in(-30, 30)); } } static V obs(T& t) { V o; for (int i = -6; i <= 6; ++i) { auto v = t.query(i); o.push_back(v.has_value()); o.push_back(v.value_or(0)); } return o; } };
PBT(li_chao_tree_values, 2000, RULE) { values<VLiChao>(g); }
struct V2D { using T = SegmentTree2D<i64, iop, ie>; static T init(u64) { return T(5, 4); } static void mut(T& t, u64 x) { Rnd r(x); t.set(r(5), r(4), r(99)); } static V obs(T& t) { V o; for (int i = 0; i <= 5; ++i) for (int j = 0; j <= 4; ++j) o.push_back(t(0, i, 0, j)); return o; } };
PBT(segment_tree_2d_values, 2000, RULE) { values<V2D>(g); }
template <class F, bool seg> struct VSp { using T = F; static T init(u64 x) { Rnd r(x); T t(6); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if ((i + j) % 3 == 0) t.add_point(i, j); t.build(); return t; } static void mut(T& t, u64 x) { Rnd r(x); int i = r(6), j = (6 - i % 3) % 3 + 3 * r(2); if ((i + j) % 3 == 0 && j < 6) t.set(i, j, i64(r(99))); } static V obs(T& t) { V o; for (int i = 0; i <= 6; ++i) for (int j = 0; j <= 6; ++j) o.push_back(t(0, i, 0, j)); return o; } };
PBT(segment_tree_2d_sparse_values, 1500, RULE) { values<VSp<SegmentTree2DSparse<i64, iop, ie>, true>>(g); }
PBT(fenwick_tree_2d_sparse_values, 1500, RULE) { values<VSp<FenwickTree2DSparse<i64>, false>>(g); }
struct VCSeg { using T = CompressedSegmentTree<u64, uop, uz, 2>; static T init(u64) { T t; for (int i = 0; i < 5; ++i) t.add_point({ i, i * 3 % 5 }); t.build(); return t; } static void mut(T& t, u64 x) { Rnd r(x); int i = r(5); t.set({ i, i * 3 % 5 }, r(99)); } static V obs(T& t) { V o; for (int i = 0; i <= 5; ++i) for (int j = 0; j <= 5; ++j) o.push_back(t.query({ { { 0, i }, { 0, j } } })); return o; } };
PBT(compressed_segment_tree_values, 1500, RULE) { values<VCSeg>(g); }
struct VCFen { using T = CompressedFenwickTree<u64, uop, uz, un, 2>; static T init(u64) { T t; for (int i = 0; i < 5; ++i) t.add_point({ i, i * 3 % 5 }); t.build(); return t; } static void mut(T& t, u64 x) { Rnd r(x); int i = r(5); t.apply({ i, i * 3 % 5 }, r(99)); } static V obs(T& t) { V o; for (int i = 0; i <= 5; ++i) for (int j = 0; j <= 5; ++j) o.push_back(t.query({ { { 0, i }, { 0, j } } })); return o; } };
PBT(compressed_fenwick_tree_values, 1500, RULE) { values<VCFen>(g); }
struct VFen { using T = FenwickTree<i64>; static T init(u64 x) { Rnd r(x); return T(r.vec<i64>(N, -9, 9)); } static void mut(T& t, u64 x) { Rnd r(x); t.add(r(N), r.in(-9, 9)); } static V obs(T& t) { V o; for (int i = 0; i <= N; ++i) o.push_back(t.sum(0, i)); return o; } };
PBT(fenwick_tree_values, 2000, RULE) { values<VFen>(g); }
struct VMFen { using T = MapFenwickTree<i64, i64>; static T init(u64) { return T(1000000); } static void mut(T& t, u64 x) { Rnd r(x); t.add(r(8) * 100000 + 7, r.in(-9, 9)); } static V obs(T& t) { V o; for (int i = 0; i <= 8; ++i) o.push_back(t.sum(0, i * 100000)); return o; } };
PBT(map_fenwick_tree_values, 2000, RULE) { values<VMFen>(g); }
struct VFen2 { using T = FenwickTree2D<i64>; static T init(u64) { return T(5, 4); } static void mut(T& t, u64 x) { Rnd r(x); t.add(r(5), r(4), r(99)); } static V obs(T& t) { V o; for (int i = 0; i <= 5; ++i) for (int j = 0; j <= 4; ++j) o.push_back(t(0, i, 0, j)); return o; } };
PBT(fenwick_tree_2d_values, 2000, RULE) { values<VFen2>(g); }
struct VFSet { using T = fenwick_tree_set; static T init(u64 x) { return T(200, x & 1); } static void mut(T& t, u64 x) { Rnd r(x); for (int k = 20; k--;) if (r(2)) t.insert(r(200)); else t.erase(r(200)); } static V obs(T& t) { V o{ t.size() }; for (int i = 0; i < t.size(); ++i) o.push_back(t[i]); for (int v : t) o.push_back(v); return o; } };
PBT(fenwick_tree_set_values, 2000, RULE) { values<VFSet>(g); }
struct VRect { using T = RectangleAddRectangleSum<i64>; static T init(u64) { T t(6); for (int a = 0; a < 5; ++a) for (int b = a; b <= 5; ++b) for (int c = 0; c < 5; ++c) t.register_add_query_rectangle(a, b, c, 5); t.build(); return t; } static void mut(T& t, u64 x) { Rnd r(x); auto [a, b] = r.seg(4); t.add(a, b, r(5), 5, r(99)); } static V obs(T& t) { V o; for (int i = 0; i <= 5; ++i) for (int j = 0; j <= 5; ++j) o.push_back(t.sum(0, i, 0, j)); return o; } };
PBT(rectangle_add_rectangle_sum_values, 1000, RULE) { values<VRect>(g); }
struct VOff { using T = OfflineRectangleAddPointGet<i64>; static T init(u64) { return T(); } static void mut(T& t, u64 x) { Rnd r(x); if (r(2)) t.get(r(6), r(6)); else { auto [a, b] = r.seg(6); auto [c, d] = r.seg(6); t.add(a, b, c, d, r(99)); } } static V obs(T& t) { V o; put(o, t.solve()); return o; } };
PBT(offline_rectangle_add_point_get_values, 2000, RULE) { values<VOff>(g); }
// persistent structures: a version is a value
struct VPSeg { using T = PersistentSegmentTree<W, w_op, w_e>; static T init(u64 x) { Rnd r(x); return T(words(r, N)); } static void mut(T& t, u64 x) { Rnd r(x); t = t.set(r(N), w_of(r(50))); } static V obs(T& t) { V o; for (int l = 0; l <= N; ++l) for (int r = l; r <= N; ++r) putw(o, t.prod(l, r)); return o; } };
PBT(persistent_segment_tree_values, 1500, RULE) { VPSeg::T::clear_pool(); VPSeg::T::init_pool(1 << 14); values<VPSeg>(g); }
struct VPLazy { using T = PersistentLazySegmentTree<u64, uop, uz, u64, uop, uop, uz>; static T init(u64 x) { Rnd r(x); return T(r.vec<u64>(N, 0, 99)); } static void mut(T& t, u64 x) { Rnd r(x); auto [a, b] = r.seg(N); if (r(3)) t = t.apply(a, b, u64(r(9)) << 20); else t = t.set(r(N), r(99)); } static V obs(T& t) { V o; for (int i = 0; i < N; ++i) o.push_back(t.get(i)); return o; } };
PBT(persistent_lazy_segment_tree_values, 1500, RULE) { VPLazy::T::clear_pool(); VPLazy::T::init_pool(1 << 15); values<VPLazy>(g); }
struct VPArr { using T = PersistentArray<int, 2>; static T init(u64 x) { Rnd r(x); return T(r.vec(N, 0, 99)); } static void mut(T& t, u64 x) { Rnd r(x); t = t.set(r(N), r(99)); } static V obs(T& t) { V o; put(o, t.dump()); return o; } };
PBT(persistent_array_values, 1500, RULE) { VPArr::T::init_pool(1 << 14); values<VPArr>(g); }
struct VPUF { using T = PersistentUnionFind; static T init(u64) { return T(N); } static void mut(T& t, u64 x) { Rnd r(x); t = t.merge(r(N), r(N)).first; } static V obs(T& t) { V o; for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) o.push_back(t.same(i, j)); return o; } };
PBT(persistent_union_find_values, 1500, RULE) { VPUF::T::init_pool(1 << 14); values<VPUF>(g); }
struct VChm { using T = RangeChMinMaxAddRangeSum<i64>; static T init(u64 x) { Rnd r(x); return T(r.vec<i64>(N, -9, 9)); } static void mut(T& t, u64 x) { Rnd r(x); auto [a, b] = r.seg(N); i64 v = r.in(-12, 12); switch (r(4)) { case 0: t.chmin(a, b, v); break; case 1: t.chmax(a, b, v); break; case 2: t.update(a, b, v); break; default: t.add(a, b, v); } } static V obs(T& t) { V o; for (int i = 0; i < N; ++i) o.push_back(t.sum(i, i + 1)); o.push_back(t.max(0, N)), o.push_back(t.min(0, N)); return o; } };
PBT(range_chmin_chmax_add_values, 2000, RULE) { values<VChm>(g); }
struct VRsc { using T = RangeSetRangeComposite<W, w_op, w_e>; static T init(u64 x) { Rnd r(x); return T(words(r, N)); } static void mut(T& t, u64 x) { Rnd r(x); auto [a, b] = r.seg(N); t.set(a, b, w_of(r(50))); } static V obs(T& t) { V o; for (int l = 0; l <= N; ++l) for (int r = l; r <= N; ++r) putw(o, t.prod(l, r)); return o; } };
PBT(range_set_range_composite_values, 2000, RULE) { values<VRsc>(g); }
template <class Q> struct VStat { using T = Q; static T init(u64 x) { Rnd r(x); return T(r.vec(N, 0, 5)); } static void mut(T& t, u64 x) { t = init(x); } static V obs(T& t) { V o; for (int l = 0; l < N; ++l) for (int r = l + 1; r <= N; ++r) { if constexpr (std::is_same_v<T, StaticRangeModeQuery<int>>) o.push_back(t(l, r).second); else if constexpr (std::is_same_v<T, StaticRangeInversionNumberQuery<int>>) o.push_back(t(l, r)); else o.push_back(t.minimum_excluded(l, r, 5)); } return o; } };
PBT(static_range_mode_values, 1500, RULE) { values<VStat<StaticRangeModeQuery<int>>>(g); }
PBT(static_range_inversions_values, 1500, RULE) { values<VStat<StaticRangeInversionNumberQuery<int>>>(g); }
PBT(range_xored_mex_values, 1500, RULE) { values<VStat<RangeXoredMexQuery<int, 4>>>(g); }
