#include "contour.hpp"
#include "library/tree/point_add_range_contour_sum_invertible.hpp"
#include "library/tree/point_get_range_contour_add_invertible.hpp"
#include "library/tree/range_contour_sum_invertible.hpp"
static i64 neg_ll(i64 x) { return -x; }
PBT(point_add_range_contour_sum_invertible, 5000, "at least 5 vertices", 8, 16) {
    CT t(g); auto a = g.vec<i64>(t.n, -1000, 1000000); suisen::PointAddRangeContourSumOnTree<i64> c(a); for (auto [u, v] : t.es) c.add_edge(u, v); c.build();
    for (int q = g.in(1, 25); q--;) { int u = g.raw(t.n); if (g.chance(2, 5)) { i64 x = g.range(-1000, 1000000); c.add(u, x); a[u] += x; g.note("add ", u, " ", x); EQ(c.get(u), a[u]); } else { auto [l, r] = t.rng(g); i64 s = 0; for (int v = 0; v < t.n; ++v) if (l <= t.d[u][v] && t.d[u][v] < r) s += a[v]; g.note("sum ", u, " ", l, " ", r); EQ(c.sum(u, l, r), s); } } for (int u = 0; u < t.n; ++u) EQ(c.get(u), a[u]);
}
PBT(range_contour_sum_invertible, 5000, "at least 5 vertices", 8, 12) {
    CT t(g); auto a = g.vec<i64>(t.n, -1000, 1000000); suisen::RangeContourSumOnTree<i64> c(a); for (auto [u, v] : t.es) c.add_edge(u, v); c.build();
    for (int q = 40; q--;) { int u = g.raw(t.n); auto [l, r] = t.rng(g); i64 s = 0; for (int v = 0; v < t.n; ++v) if (l <= t.d[u][v] && t.d[u][v] < r) s += a[v]; g.note("sum ", u, " ", l, " ", r); EQ(c.sum(u, l, r), s); }
}
PBT(point_get_range_contour_add_invertible, 5000, "at least 5 vertices", 8, 21) {
    CT t(g); auto a = g.vec<i64>(t.n, -1000, 1000000); suisen::PointGetRangeContourAddOnTree<i64, i64, add_ll, add_ll, zero_ll, neg_ll> c(t.n); for (auto [u, v] : t.es) c.add_edge(u, v); c.build(a);
    for (int q = g.in(1, 25); q--;) { int u = g.raw(t.n); i64 x = g.range(0, 1000000); switch (g.raw(3)) { case 0: EQ(c.get(u), a[u]); break; case 1: c.add(u, x); a[u] += x; break; default: { auto [l, r] = t.rng(g); g.note("apply ", u, " ", l, " ", r, " ", x); c.apply(u, l, r, x); for (int v = 0; v < t.n; ++v) if (l <= t.d[u][v] && t.d[u][v] < r) a[v] += x; } } } for (int u = 0; u < t.n; ++u) EQ(c.get(u), a[u]);
}
