#include "large.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
#include "library/range_query/range_set_range_composite.hpp"
using namespace hv;
static S fold(const std::vector<Z>& a, int l, int r) { S s; for (int i = l; i < r; ++i) s = s_op(s, s_of(a[i])); return s; }
static A baff(Bulk& b) { switch (b.raw(6)) { case 0: return A{ 0, b.range(0, 1000000) }; case 1: return A{ 1, b.range(0, 1000000) }; default: return A{ (i64)b.raw(P - 1) + 1, (i64)b.raw(P) }; } }
PBT(lazy_large, 4, "every case: more than 2^16 elements, 10^4 range applications") {
    int n = big_n(g, 140000); Bulk b(g); g.nontrivial(); std::vector<Z> a(n); std::vector<S> i0(n); for (int i = 0; i < n; ++i) a[i] = b.range(0, P - 1), i0[i] = s_of(a[i]);
    suisen::LazySegmentTree<S, s_op, s_e, A, s_map, a_comp, a_id> t(i0);
    for (int k = 0; k < 400; ++k) {
        auto [l, r] = b.seg(n); A f = baff(b); t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = a_app(f, a[i]);
        for (int j = 0; j < 20; ++j) { int l2 = b.in(0, n), r2 = std::min(n, l2 + b.in(0, 60)); A f2 = baff(b); t.apply(l2, r2, f2); for (int i = l2; i < r2; ++i) a[i] = a_app(f2, a[i]); int i = b.in(0, n - 1); if (b.coin()) { a[i] = b.range(0, P - 1); t.set(i, s_of(a[i])); } else EQ(t.get(i), s_of(a[i])); EQ(t.prod(l2, r2), fold(a, l2, r2)); }
        if (k % 8 == 0) { auto [x, y] = b.seg(n); EQ(t.prod(x, y), fold(a, x, y)); }
    }
    EQ(t.all_prod(), fold(a, 0, n)); for (int i = 0; i < n; ++i) EQ(t.get(i), s_of(a[i]));
}
PBT(dual_large, 4, "every case: more than 2^16 elements") {
    int n = big_n(g, 140000); Bulk b(g); g.nontrivial(); std::vector<Z> a(n); for (auto& x : a) x = b.range(0, P - 1); suisen::DualSegmentTree<Z, A, a_app, a_comp, a_id> t(a);
    for (int k = 0; k < 500; ++k) { auto [l, r] = b.seg(n); A f = baff(b); t.apply(l, r, f); for (int i = l; i < r; ++i) a[i] = a_app(f, a[i]); for (int j = 0; j < 20; ++j) { int i = b.in(0, n - 1); EQ(t.get(i), a[i]); } }
    for (int i = 0; i < n; ++i) EQ(t[i], a[i]);
}
static i64 addmap(i64 f, i64 x) { return x + f; }
PBT(commutative_dual_large, 4, "every case: more than 2^16 elements") {
    int n = big_n(g); Bulk b(g); g.nontrivial(); auto a = b.vec(n, -1000000000, 1000000000); suisen::CommutativeDualSegmentTree<i64, i64, addmap, add_ll, zero_ll> t(a); std::vector<i64> d(n + 1);
    for (int k = 0; k < 50000; ++k) { auto [l, r] = b.seg(n); i64 f = b.range(-1000000000, 1000000000); t.apply(l, r, f); d[l] += f, d[r] -= f; }
    i64 s = 0; for (int i = 0; i < n; ++i) { s += d[i]; EQ(t[i], a[i] + s); }
}
static u64 addu(u64 a, u64 b) { return a + b; }
static u64 zu() { return 0; }
static u64 mapu(u64 f, u64 x, i64 l, i64 r) { return x + f * u64(r - l); }
static u64 tri(i64 x) { return u64(u128(x) * u128(x > 0 ? x - 1 : 0) / 2); }
static u64 rampu(i64 l, i64 r) { return r <= l ? 0 : tri(r) - tri(l); }
PBT(sparse_lazy_large, 4, "every case: thousands of range additions over 10^18 positions") {
    using T = suisen::SparseLazySegmentTree<i64, u64, addu, zu, u64, mapu, addu, zu, rampu>; i64 n = g.coin() ? 1000000000000000000LL : 131072; Bulk b(g); g.nontrivial(); T t(n);
    int q = 4000; std::vector<std::tuple<i64, i64, u64>> ops;
    for (int k = 0; k < q; ++k) { i64 l = b.range(0, n), r = b.range(0, n); if (l > r) std::swap(l, r); u64 f = b.raw(0); t.apply(l, r, f); ops.emplace_back(l, r, f); }
    for (int k = 0; k < 1000; ++k) { i64 l = b.range(0, n), r = b.range(0, n); if (l > r) std::swap(l, r); u64 s = rampu(l, r); for (auto& [x, y, f] : ops) { i64 u = std::max(x, l), v = std::min(y, r); if (u < v) s += f * u64(v - u); } EQ(t.prod(l, r), s); if (l < n) { s = u64(l); for (auto& [x, y, f] : ops) if (x <= l && l < y) s += f; EQ(t.get(l), s); } }
}
PBT(beats_large, 4, "every case: more than 50000 elements, mixed updates") {
    int n = big_n(g, 100000); Bulk b(g); g.nontrivial(); i64 V = g.pick<i64>({ 50, 1000000000000LL }); auto a = b.vec(n, -V, V); suisen::RangeChMinMaxAddRangeSum<i64> t(a); i64 lo = -V, hi = V;
    for (int k = 0; k < 500; ++k) {
        auto [l, r] = b.seg(n); i64 v = b.range(lo, hi); int op = b.raw(4);
        switch (op) { case 0: t.chmin(l, r, v); for (int i = l; i < r; ++i) a[i] = std::min(a[i], v); break; case 1: t.chmax(l, r, v); for (int i = l; i < r; ++i) a[i] = std::max(a[i], v); break; case 2: v /= 100; t.add(l, r, v); for (int i = l; i < r; ++i) a[i] += v; break; default: if (k % 10 == 0) { t.update(l, r, v); for (int i = l; i < r; ++i) a[i] = v; } }
        auto [x, y] = b.seg(n); EQ(t.sum(x, y), std::accumulate(a.begin() + x, a.begin() + y, i64(0))); if (x < y) { EQ(t.max(x, y), *std::max_element(a.begin() + x, a.begin() + y)); EQ(t.min(x, y), *std::min_element(a.begin() + x, a.begin() + y)); }
    }
    for (int i = 0; i < n; ++i) EQ(t.sum(i, i + 1), a[i]);
}
PBT(range_set_composite_large, 4, "every case: more than 2^16 elements") {
    int n = big_n(g, 140000); Bulk b(g); g.nontrivial(); std::vector<W> a(n); for (auto& x : a) x = w_of(b.raw(100)); suisen::RangeSetRangeComposite<W, w_op, w_e> t(a);
    for (int k = 0; k < 1500; ++k) { auto [l, r] = b.seg(n); if (b.coin()) { int w = b.coin() ? n : 50; r = std::min(r, l + w); W v = w_of(b.raw(100)); t.set(l, r, v); std::fill(a.begin() + l, a.begin() + r, v); } else if (k % 8 == 0 || r - l < 500) EQ(t.prod(l, r), w_fold(a, l, r)); }
    for (int i = 0; i < n; i += 7) EQ(t.prod(i, i + 1), a[i]);
    EQ(t.prod(0, n), w_fold(a, 0, n));
}
