// FLAGS: -fsanitize-coverage=trace-pc -fno-tree-loop-distribute-patterns
// MODES: opt
#include "cost.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
#include "library/range_query/range_set_range_composite.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
#include "library/datastructure/sparse_table.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/algorithm/rmq_pm1.hpp"
#include "library/algorithm/mo.hpp"
#include "library/algorithm/inversion_number.hpp"
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/algorithm/monotone_minima.hpp"
#include "library/dp/longest_increasing_subsequence.hpp"
#include "library/datastructure/util/range_set.hpp"
#include "library/datastructure/util/priority_sum.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/sliding_window_minimum.hpp"
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/priority_queue.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/slope_trick.hpp"
using namespace hv;
static constexpr int n0 = 1 << 11, n1 = 1 << 16;
static W sink;
PBT(segment_trees, 2, "every case: cost at 2^11 and at 2^16 elements compared") {
    for (int z = 0; z < 9; ++z) switch (z) {
        case 0: grows(g, "SegmentTree build+set+prod", o_nlog, n0, n1, [](int n, Bulk& b) { std::vector<W> a(n, w_of(1)); auto i = b.perm(n); return cost([&] { suisen::SegmentTree<W, w_op, w_e> t(a); for (int k : i) t.set(k, w_of(k)); for (int k : i) sink = t.prod(k / 2, n - k / 3); }); }); break;
        case 1: grows(g, "SegmentTree max_right/min_left", o_nlog, n0, n1, [](int n, Bulk& b) { auto a = b.vec(n, 0, 9); suisen::SegmentTree<i64, add_ll, zero_ll> t(a); return cost([&] { for (int k = 0; k < n; ++k) { K << t.max_right(k, [&](i64 s) { return s <= n; }); K << t.min_left(k, [&](i64 s) { return s <= n; }); } }); }); break;
        case 2: grows(g, "LazySegmentTree apply+prod", o_nlog, n0, n1, [](int n, Bulk& b) { std::vector<S> a(n, s_of(Z(1))); std::vector<std::pair<int, int>> q(n); for (auto& x : q) x = b.seg(n); return cost([&] { suisen::LazySegmentTree<S, s_op, s_e, A, s_map, a_comp, a_id> t(a); for (auto [l, r] : q) t.apply(l, r, A{ 3, 4 }), K << t.prod(l / 2, r) << t.get(r / 2), t.set(l / 2, s_of(Z(5))); }); }); break;
        case 3: grows(g, "DualSegmentTree apply+get", o_nlog, n0, n1, [](int n, Bulk& b) { std::vector<Z> a(n, Z(1)); std::vector<std::pair<int, int>> q(n); for (auto& x : q) x = b.seg(n); return cost([&] { suisen::DualSegmentTree<Z, A, a_app, a_comp, a_id> t(a); for (auto [l, r] : q) t.apply(l, r, A{ 3, 4 }), K << t.get(l / 2); }); }); break;
        case 4: grows(g, "SparseSegmentTree set+prod", o_nlog, n0, n1, [](int n, Bulk& b) { auto i = b.perm(n); return cost([&] { suisen::SparseSegmentTree<int, W, w_op, w_e> t(n); for (int k : i) t.set(k, w_of(k)); for (int k : i) sink = t.prod(k / 2, n - k / 3); }); }); break;
        case 5: grows(g, "SegmentTree2D set+prod", o_log2, 1 << 12, 1 << 18, [](int n, Bulk& b) { int s = int(std::sqrt(n)); suisen::SegmentTree2D<i64, add_ll, zero_ll> t(s, s); return cost([&] { for (int k = 0; k < 3000; ++k) { t.set(b.in(0, s - 1), b.in(0, s - 1), k); int u = b.in(0, s / 2), l = b.in(0, s / 2); K << t(u, s - u / 2, l, s - l / 2); } }); }); break;
        case 6: grows(g, "SegmentTree2DSparse/Compressed", o_nlog2, n0, 1 << 15, [](int n, Bulk& b) { auto p = b.perm(n); return cost([&] { suisen::SegmentTree2DSparse<i64, add_ll, zero_ll> t(n); suisen::CompressedSegmentTree<i64, add_ll, zero_ll, 2, int> c; for (int i = 0; i < n; ++i) t.add_point(i, p[i]), c.add_point({ i, p[i] }); t.build(), c.build(); for (int i = 0; i < n; ++i) t.set(i, p[i], i), c.set({ i, p[i] }, i); for (int i = 0; i < n; ++i) K << t.prod(i / 2, n - i / 2, i / 3, n - i / 3) << c.query({ std::pair<int, int>{ i / 2, n - i / 2 }, std::pair<int, int>{ i / 3, n - i / 3 } }); }); }); break;
        case 7: { for (int how = 0; how < 3; ++how) grows(g, "RangeChMinMaxAddRangeSum " + std::to_string(how), o_nlog2, n0, n1, [how](int n, Bulk& b) { auto a = how == 0 ? b.vec(n, -1000000000, 1000000000) : b.vec(n, 0, n); if (how == 2) for (int i = 0; i < n; ++i) a[i] = i; return cost([&] { suisen::RangeChMinMaxAddRangeSum<i64> t(a); for (int k = 0; k < n; ++k) { auto [l, r] = b.seg(n); i64 v = how == 0 ? b.range(-1000000000, 1000000000) : b.in(0, n); switch (how == 2 ? k % 2 : b.raw(4)) { case 0: t.chmin(l, r, v); break; case 1: t.chmax(l, r, v); break; case 2: t.add(l, r, v % 100); break; default: K << t.sum(l, r); } } }); }); break; }
        default: grows(g, "RangeSetRangeComposite", o_nlog, n0, n1, [](int n, Bulk& b) { std::vector<W> a(n, w_of(1)); std::vector<std::pair<int, int>> q(n); for (auto& x : q) x = b.seg(n); return cost([&] { suisen::RangeSetRangeComposite<W, w_op, w_e> t(a); for (auto [l, r] : q) t.set(l, r, w_of(l)), sink = t.prod(r / 2, n - l / 2); }); });
    }
}
PBT(static_queries, 2, "every case: cost at two sizes compared") {
    for (int z = 0; z < 6; ++z) switch (z) {
        case 0: grows(g, "SparseTable queries", o_n, 1 << 8, n1, [](int n, Bulk& b) { std::vector<W> a(n, w_of(1)); std::vector<i64> v = b.vec(n, 0, 1000000); suisen::SparseTable<i64, min_ll, inf_ll> t(v); std::vector<std::pair<int, int>> q(n); for (auto& x : q) x = b.seg(n); return cost([&] { for (auto [l, r] : q) if (l < r) K << t(l, r); }); }, 1.6); break;
        case 1: { for (int how = 0; how < 3; ++how) grows(g, "RMQpm1 build+queries", o_n, 1 << 10, n1, [how](int n, Bulk& b) { std::vector<int> w(n); for (int i = 1; i < n; ++i) w[i] = w[i - 1] + (how == 0 ? 1 : how == 1 ? -1 : b.coin() ? 1 : -1); std::vector<std::pair<int, int>> q(n); for (auto& x : q) x = b.seg(n); return cost([&] { suisen::RMQpm1<true> t(w); for (auto [l, r] : q) if (l < r) K << t(l, r); }); }, 1.8); break; }
        case 2: { for (int how = 0; how < 4; ++how) grows(g, "cartesian tree, maximum rectangle", o_n, n0, n1, [how](int n, Bulk& b) { std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = how == 0 ? i : how == 1 ? n - i : how == 2 ? 5 : b.in(0, n); return cost([&] { K << suisen::MinCartesianTreeBuilder(a).build(); suisen::maximal_rectangles_hist(a, [](int, int, int) {}); }); }, 2); break; }
        case 3: { for (int how = 0; how < 3; ++how) grows(g, "LIS, inversions", o_nlog, n0, n1, [how](int n, Bulk& b) { std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = how == 0 ? i : how == 1 ? n - i : b.in(0, n); return cost([&] { K << suisen::longest_increasing_subsequence(a) << suisen::inversion_number(a); }); }); break; }
        case 4: grows(g, "WaveletMatrix queries", o_n, n0, n1, [](int n, Bulk& b) { auto a = b.vec<int>(n, 0, 60000); std::vector<std::pair<int, int>> q(n); for (auto& x : q) x = b.seg(n); return cost([&] { suisen::WaveletMatrix<int, 16> t(a); for (auto [l, r] : q) if (l < r) K << t.range_kth_smallest(l, r, (r - l) / 2) << t.range_freq(l, r, 30000) << t.rank(a[l], r) << t.range_max_lt(l, r, 30000, 0) << t[l]; }); }, 2); break;
        default: grows(g, "monotone_minima", o_nlog, n0, n1, [](int n, Bulk&) { return cost([&] { K << suisen::monotone_minima(n, n, [&](size_t i, size_t j) { i64 d = i64(i) - i64(j); return d * d; }); }); });
    }
}
PBT(fenwicks, 2, "every case: cost at two sizes compared") {
    for (int z = 0; z < 3; ++z) switch (z) {
        case 0: grows(g, "FenwickTree", o_nlog, n0, n1, [](int n, Bulk& b) { auto a = b.vec(n, 0, 100); return cost([&] { suisen::FenwickTree<i64> t(a); for (int i = 0; i < n; ++i) t.add(i, i), K << t.sum(i / 2, n - i / 2); }); }); break;
        case 1: grows(g, "FenwickTree build", o_n, n0, n1, [](int n, Bulk& b) { auto a = b.vec(n, 0, 100); return cost([&] { suisen::FenwickTree<i64> t(a); K << t; }); }, 1.4); break;
        default: grows(g, "FenwickTree2DSparse", o_nlog2, n0, n1, [](int n, Bulk& b) { auto p = b.perm(n); return cost([&] { suisen::FenwickTree2DSparse<i64> t(n); for (int i = 0; i < n; ++i) t.add_point(i, p[i]); t.build(); for (int i = 0; i < n; ++i) t.add(i, p[i], i); for (int i = 0; i < n; ++i) K << t.sum(i / 2, n - i / 2, i / 3, n - i / 3); }); });
    }
}
PBT(range_sets, 2, "every case: cost at two sizes compared") {
    for (int how = 0; how < 4; ++how) grows(g, "RangeSet pattern " + std::to_string(how), o_nlog, n0, n1, [how](int n, Bulk& b) { auto p = b.perm(n); return cost([&] { suisen::RangeSet<int, true> t; 
        for (int k = 0; k < n; ++k) switch (how) { case 0: t.insert(2 * p[k], 2 * p[k]); break; case 1: t.insert(p[k], p[k]); t.minimum_excluded(0); t.contains(p[k] / 2); break; case 2: t.insert(0, 4 * n); t.erase(2 * p[k], 2 * p[k] + 1); break; default: { int l = p[k]; if (b.coin()) t.insert(l, l + n / 4); else t.erase(l, l + 3); } } 
        for (int k = 0; k < n; ++k) K << t.minimum_excluded(p[k]) << t.contains(k); t.erase(-10, 9 * n); }); });
}
static W wm(W a, W b) { return w_op(a, b); } static W wa(W a, int v) { return w_op(a, w_of(v)); }
PBT(queues, 2, "every case: cost at two sizes compared") {
    for (int how = 0; how < 8; ++how) grows(g, "deque/queue aggregation, pattern " + std::to_string(how), o_n, n0, n1, [how](int n, Bulk& b) { std::vector<char> c(4 * n); for (auto& x : c) x = b.coin(); return cost([&] { suisen::DequeAggregation<W, w_op, w_e> d; suisen::QueueAggregation<int, W, w_e, wa, W, wm> q;
        for (int i = 0; i < n; ++i) { if (how == 1 || how == 6 || (how == 2 && c[i])) d.push_front(w_of(i)); else d.push_back(w_of(i)); q.push_back(i); if (how == 3 && i % 2) { d.pop_front(); q.pop_front(); sink = d.prod(); } }
        for (int i = 0; d.size() > 2; ++i) { bool f = how == 0 || how == 6 ? false : how == 1 || how == 7 ? true : how == 4 ? i % 2 : c[i]; if (how == 5) f = (i / 64) % 2; if (f) d.pop_front(); else d.pop_back(); sink = d.prod(); if (q.size()) q.pop_front(), sink = q.prod(); }
        // stay at a boundary size: push and pop around a rebuild
        for (int i = 0; i < n; ++i) { if (c[i]) d.push_front(w_of(i)), d.pop_back(); else d.push_back(w_of(i)), d.pop_front(); sink = d.prod(); } }); }, 2);
}
PBT(heaps, 2, "every case: cost at two sizes compared") {
    for (int how = 0; how < 4; ++how) grows(g, "heaps, pattern " + std::to_string(how), o_nlog, n0, n1, [how](int n, Bulk& b) { std::vector<i64> a(n); for (int i = 0; i < n; ++i) a[i] = how == 0 ? i : how == 1 ? n - i : how == 2 ? 7 : b.range(0, 1000000000); return cost([&] {
        suisen::MinBinaryHeap<i64> t(a); suisen::MaxPriorityQueue<i64> u; suisen::IntervalHeap<i64> v; suisen::DoubleEndedPriorityQueue<i64> d(a); for (i64 x : a) u.push(x), v.push(x), t.push(x); for (int i = 0; i < n; ++i) t.pop(), u.pop(), i % 3 ? v.pop_min() : v.pop_max(), i % 2 ? d.pop_min() : d.pop_max(); }); });
}
PBT(heap_build, 2, "every case: cost at two sizes compared") {
    for (int how = 0; how < 3; ++how) grows(g, "BinaryHeap built from n elements", o_n, n0, n1, [how](int n, Bulk& b) { std::vector<i64> a(n); for (int i = 0; i < n; ++i) a[i] = how == 0 ? i : how == 1 ? n - i : b.range(0, 1000000000); return cost([&] { suisen::MinBinaryHeap<i64> t(a); K << t; }); }, 1.35);
}
PBT(priority_sums, 2, "every case: cost at two sizes compared") {
    for (int how = 0; how < 4; ++how) grows(g, "PrioritySum, pattern " + std::to_string(how), o_nlog, n0, n1, [how](int n, Bulk& b) { std::vector<i64> a(n); for (int i = 0; i < n; ++i) a[i] = how == 0 ? i : how == 1 ? n - i : b.range(0, how == 2 ? 10 : 1000000000); auto p = b.perm(n); return cost([&] { suisen::MaximumPrioritySum<i64> t(n / 4); for (i64 x : a) t.insert(x), t.get_sum(); for (int i = 0; i < n; ++i) { t.erase(a[p[i]]); t.get_sum(); if (i % 4 == 0) t.incr_k(); if (i % 4 == 1) t.decr_k(); } }); });
}
PBT(envelopes, 2, "every case: cost at two sizes compared") {
    for (int how = 0; how < 4; ++how) grows(g, "line envelopes, pattern " + std::to_string(how), o_nlog, n0, n1, [how](int n, Bulk& b) { std::vector<std::pair<i64, i64>> ls(n); for (int i = 0; i < n; ++i) { i64 a = how == 3 ? b.range(-1000000, 1000000) : i - n / 2; ls[i] = { a, how == 3 ? b.range(-1000000000000LL, 1000000000000LL) : how == 2 ? -a * a : a * a / 2 }; } if (how == 1) b.shuffle(ls); std::vector<i64> xs(n); for (int i = 0; i < n; ++i) xs[i] = i - n / 2; auto o = sorted(ls); return cost([&] { suisen::MinCHT<i64> t; suisen::LiChaoSegmentTree<i64, true> lc(xs); suisen::MonotonicCHT<i64, true, suisen::inc_query_tag> mi; suisen::MonotonicCHT<i64, true, suisen::non_monotonic_query_tag> mx;
        for (auto [p, q] : ls) t.add_line(p, q), lc.add_line(p, q); for (auto [p, q] : o) mi.add_line(p, q), mx.add_line(p, q); for (i64 x : xs) K << t.query(x) << lc.query(x) << mi.query(x) << mx.query(x); }); });
}
PBT(slope_tricks, 2, "every case: cost at two sizes compared") {
    for (int how = 0; how < 3; ++how) grows(g, "SlopeTrick, pattern " + std::to_string(how), o_nlog, n0, n1, [how](int n, Bulk& b) { std::vector<i64> a(n); for (int i = 0; i < n; ++i) a[i] = how == 0 ? i : how == 1 ? n - i : b.range(0, 1000000000); return cost([&] { suisen::SlopeTrick<i64> t; for (i64 x : a) t.add_abs(x), t.translate(1), K << t.min() << t.argmin_range(); suisen::SlopeTrick<i64> u; for (i64 x : a) u.cumulative_min_left(), u.add_abs(x), u.sliding_window_minimum(-1, 1), K << u.min(); }); });
}
PBT(mo_moves, 2, "every case: number of end-point moves at two sizes compared") {
    for (int how = 0; how < 3; ++how) grows(g, "Mo, pattern " + std::to_string(how), o_nsqrt, n0, 1 << 15, [how](int n, Bulk& b) { std::vector<std::pair<int, int>> q(n); for (int i = 0; i < n; ++i) q[i] = how == 0 ? b.seg(n) : how == 1 ? std::pair<int, int>{ i, n } : i % 2 ? std::pair<int, int>{ i / 2, n - i / 2 } : std::pair<int, int>{ n / 2, n / 2 + i / 2 }; suisen::Mo mo(n, q); i64 mv = 0; return mv = 0, cost([&] { mo.solve([&] { return 0; }, [&](int) { K << ++mv; }, [&](int) { K << ++mv; }, [&](int) { K << ++mv; }, [&](int) { K << ++mv; }); }); });
}
