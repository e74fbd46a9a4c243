#include "large.hpp"
#include "library/tree/contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum.hpp"
#include "library/tree/point_get_range_contour_operate.hpp"
#include "library/tree/point_set_range_contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum_invertible.hpp"
#include "library/tree/point_get_range_contour_add_invertible.hpp"
#include "library/tree/range_contour_sum_invertible.hpp"
using namespace hv;
static i64 neg_ll(i64 x) { return -x; } static i64 mp_max(i64 f, i64 x) { return std::max(f, x); }
struct BT { int n, shape; Bulk b; std::vector<std::pair<int, int>> es; BigTree t; std::vector<i64> a; BT(Gen& g, int hi) : n(big_n(g, hi)), shape(g.raw(8)), b(g), es(b.tree(n, shape, g.chance(3, 4))), t(n, es, 0), a(b.vec<i64>(n, 1, 1000000000)) { g.note("n ", n, " shape ", shape); g.nontrivial(); }
    std::pair<int, int> rng(const std::vector<int>& d) { int m = *std::max_element(d.begin(), d.end()); int l = b.in(-1, m), r = b.in(-1, m + 2); if (l > r) std::swap(l, r); if (b.raw(4) == 0) l = 0; return { l, r }; } template <class C> void fill(C& c) { for (auto [u, v] : es) c.add_edge(u, v); } };
template <class C> static i64 naive(BT& t, int u, int l, int r, const std::vector<int>& d, C op, i64 e) { i64 s = e; for (int v = 0; v < t.n; ++v) if (l <= d[v] && d[v] < r) s = op(s, t.a[v]); (void)u; return s; }
PBT(contour_static_large, 3, "every case: more than 2^15 vertices") {
    BT t(g, 100000); suisen::ContourSumOnTree<i64> c(t.a); t.fill(c); c.build(); suisen::RangeContourSumOnTree<i64> r(t.a); t.fill(r); r.build();
    for (int q = 0; q < 15; ++q) { int u = t.b.raw(t.n); auto d = t.t.bfs(u); std::vector<i64> s(t.n + 1); for (int v = 0; v < t.n; ++v) s[d[v] + 1] += t.a[v]; int m = *std::max_element(d.begin(), d.end()); for (int i = 0; i < 300; ++i) { int k = m < 300 ? std::min(i, m + 1) : t.b.in(0, m + 1); EQ(c.sum(u, k), (k + 1 <= t.n ? s[k + 1] : 0)); } for (int i = 0; i < t.n; ++i) s[i + 1] += s[i]; for (int i = 0; i < 300; ++i) { auto [x, y] = t.rng(d); EQ(r.sum(u, x, y), s[std::max(0, std::min(y, t.n))] - s[std::max(0, x)]); } }
}
template <class C, class Op> static void point(Gen& g, int hi, Op op, i64 e, int kind) { // kind 0 add, 1 set
    BT t(g, hi); C c(t.a); t.fill(c); c.build(); for (int q = 0; q < 25; ++q) { for (int k = 0; k < 400; ++k) { int v = t.b.raw(t.n); i64 x = t.b.range(1, 2000000000); if (kind == 0) { if constexpr (!std::is_same_v<C, suisen::PointSetRangeContourSum<i64, max_ll, ninf_ll>>) c.add(v, x); t.a[v] = op(t.a[v], x); } else { if constexpr (std::is_same_v<C, suisen::PointSetRangeContourSum<i64, max_ll, ninf_ll>>) c.set(v, x); t.a[v] = x; } EQ(c.get(v), t.a[v]); } int u = t.b.raw(t.n); auto d = t.t.bfs(u); for (int k = 0; k < 3; ++k) { auto [l, r] = t.rng(d); EQ(c.sum(u, l, r), naive(t, u, l, r, d, op, e)); } }
}
PBT(contour_add_large, 2, "every case: more than 2^15 vertices") { if (g.coin()) point<suisen::PointAddRangeContourSum<i64, add_ll, zero_ll>>(g, 70000, add_ll, 0, 0); else point<suisen::PointAddRangeContourSumOnTree<i64>>(g, 70000, add_ll, 0, 0); }
PBT(contour_set_large, 2, "every case: more than 2^15 vertices") { point<suisen::PointSetRangeContourSum<i64, max_ll, ninf_ll>>(g, 70000, max_ll, ninf_ll(), 1); }
template <class C, class Op> static void apply(Gen& g, Op op) {
    BT t(g, 70000); C c(t.n); t.fill(c); c.build(t.a); for (int q = 0; q < 40; ++q) { int u = t.b.raw(t.n); auto d = t.t.bfs(u); for (int k = 0; k < 2; ++k) { auto [l, r] = t.rng(d); i64 x = t.b.range(1, 2000000000); c.apply(u, l, r, x); for (int v = 0; v < t.n; ++v) if (l <= d[v] && d[v] < r) t.a[v] = op(x, t.a[v]); } for (int k = 0; k < 300; ++k) { int v = t.b.raw(t.n); EQ(c.get(v), t.a[v]); } } for (int v = 0; v < t.n; ++v) EQ(c.get(v), t.a[v]);
}
PBT(contour_apply_large, 3, "every case: more than 2^15 vertices") { switch (g.raw(3)) { case 0: apply<suisen::PointGetRangeContourOperate<i64, i64, add_ll, add_ll, zero_ll>>(g, add_ll); break; case 1: apply<suisen::PointGetRangeContourOperate<i64, i64, mp_max, max_ll, ninf_ll>>(g, mp_max); break; default: apply<suisen::PointGetRangeContourAddOnTree<i64, i64, add_ll, add_ll, zero_ll, neg_ll>>(g, add_ll); } }
