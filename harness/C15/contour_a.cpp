#include "contour.hpp"
#include "library/tree/contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum.hpp"
#include "library/tree/point_get_range_contour_operate.hpp"
#include "library/tree/point_set_range_contour_sum.hpp"
PBT(contour_sum, 5000, "at least 5 vertices", 8, 51) {
    CT t(g); std::vector<i64> a; bool fill = g.coin(); if (fill) a.assign(t.n, 3); else a = g.vec<i64>(t.n, 1, 1000000); suisen::ContourSumOnTree<i64> c = fill ? suisen::ContourSumOnTree<i64>(t.n, 3) : suisen::ContourSumOnTree<i64>(a); for (auto [u, v] : t.es) c.add_edge(u, v); c.build();
    for (int u = 0; u < t.n; ++u) for (int d = -1; d <= t.n; ++d) { i64 s = 0; for (int v = 0; v < t.n; ++v) if (t.d[u][v] == d) s += a[v]; EQ(c.sum(u, d), s); }
}
PBT(point_add_range_contour_sum, 5000, "at least 5 vertices", 8, 13) {
    CT t(g); auto run = [&](auto c, auto a, auto op, auto e) { for (auto [u, v] : t.es) c.add_edge(u, v); c.build(); for (int q = g.in(1, 25); q--;) { int u = g.raw(t.n); if (g.chance(2, 5)) { i64 x = g.range(0, 1000000); c.add(u, x); a[u] = op(a[u], x); g.note("add ", u, " ", x); EQ(c.get(u), a[u]); } else { auto [l, r] = t.rng(g); i64 s = e(); for (int v = 0; v < t.n; ++v) if (l <= t.d[u][v] && t.d[u][v] < r) s = op(s, a[v]); g.note("sum ", u, " ", l, " ", r); EQ(c.sum(u, l, r), s); } } for (int u = 0; u < t.n; ++u) EQ(c.get(u), a[u]); };
    auto a = g.vec<i64>(t.n, 1, 1000000); if (g.coin()) run(suisen::PointAddRangeContourSum<i64, add_ll, zero_ll>(a), a, add_ll, zero_ll); else run(suisen::PointAddRangeContourSum<i64, max_ll, ninf_ll>(a), a, max_ll, ninf_ll);
}
static i64 mp_max(i64 f, i64 x) { return std::max(f, x); }
PBT(point_get_range_contour_operate, 5000, "at least 5 vertices", 8, 12) {
    CT t(g); auto run = [&](auto c, auto a, auto mp) { for (auto [u, v] : t.es) c.add_edge(u, v); c.build(a); for (int q = g.in(1, 25); q--;) { int u = g.raw(t.n); i64 x = g.range(0, 1000000); switch (g.raw(3)) { case 0: EQ(c.get(u), a[u]); break; case 1: c.apply(u, x); a[u] = mp(x, a[u]); break; default: { auto [l, r] = t.rng(g); g.note("apply ", u, " ", l, " ", r, " ", x); c.apply(u, l, r, x); for (int v = 0; v < t.n; ++v) if (l <= t.d[u][v] && t.d[u][v] < r) a[v] = mp(x, a[v]); } } } for (int u = 0; u < t.n; ++u) EQ(c.get(u), a[u]); };
    auto a = g.vec<i64>(t.n, 1, 1000000); if (g.coin()) run(suisen::PointGetRangeContourOperate<i64, i64, add_ll, add_ll, zero_ll>(t.n), a, add_ll); else run(suisen::PointGetRangeContourOperate<i64, i64, mp_max, max_ll, ninf_ll>(t.n), a, mp_max);
}
PBT(point_set_range_contour_sum, 5000, "at least 5 vertices", 8, 16) {
    CT t(g); auto a = g.vec<i64>(t.n, -1000, 1000000); bool fill = g.coin(); if (fill) a.assign(t.n, 4);
    auto run = [&](auto c, auto op, auto e) { for (auto [u, v] : t.es) c.add_edge(u, v); c.build(); for (int q = g.in(1, 25); q--;) { int u = g.raw(t.n); if (g.chance(2, 5)) { i64 x = g.range(-1000, 1000000); c.set(u, x); a[u] = x; g.note("set ", u, " ", x); EQ(c.get(u), x); } else { auto [l, r] = t.rng(g); i64 s = e(); for (int v = 0; v < t.n; ++v) if (l <= t.d[u][v] && t.d[u][v] < r) s = op(s, a[v]); g.note("sum ", u, " ", l, " ", r); EQ(c.sum(u, l, r), s); } } for (int u = 0; u < t.n; ++u) EQ(c.get(u), a[u]); };
    using C1 = suisen::PointSetRangeContourSum<i64, add_ll, zero_ll>; using C2 = suisen::PointSetRangeContourSum<i64, max_ll, ninf_ll>; if (g.coin()) run(fill ? C1(t.n, 4) : C1(a), add_ll, zero_ll); else run(fill ? C2(t.n, 4) : C2(a), max_ll, ninf_ll);
}
