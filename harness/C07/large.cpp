#include "large.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/static_rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp"
using namespace hv;
static constexpr i64 G = 1000000000;
PBT(fenwick_large, 4, "every case: more than 2^16 cells") {
    int n = big_n(g, 300000); Bulk b(g); g.nontrivial(); auto a = b.vec(n, -G * 1000, G * 1000); suisen::FenwickTree<i64> t = g.coin() ? suisen::FenwickTree<i64>(a) : suisen::FenwickTree<i64>(n); if (t.sum(0, n) == 0 && t.sum(0, 1) == 0) a.assign(n, 0);
    auto mx = b.vec(n, -G, G); suisen::FenwickTreePrefix<i64, max_ll, ninf_ll> u(mx);
    for (int round = 0; round < 3; ++round) {
        for (int k = 0; k < 20000; ++k) { int i = b.in(0, n - 1); i64 v = b.range(-G, G); t.add(i, v); a[i] += v; i = b.in(0, n - 1); v = b.range(-G, G * 2); u.apply(i, v); mx[i] = std::max(mx[i], v); }
        std::vector<i64> p(n + 1), q(n + 1, ninf_ll()); for (int i = 0; i < n; ++i) p[i + 1] = p[i] + a[i], q[i + 1] = std::max(q[i], mx[i]);
        for (int k = 0; k < 20000; ++k) { auto [l, r] = b.seg(n); EQ(t.sum(l, r), p[r] - p[l]); EQ(u.prefix_query(r), q[r]); }
    }
}
PBT(map_fenwick_large, 2, "every case: tens of thousands of keys in a huge range") {
    i64 n = 1000000000000000000LL; suisen::MapFenwickTree<i64, i64, false> t(n); suisen::MapFenwickTree<i64, i64, true> u(n); Bulk b(g); g.nontrivial(); std::map<i64, i64> m;
    for (int k = 0; k < 5000; ++k) { i64 i = b.range(0, n - 1); i64 v = b.range(-G, G); t.add(i, v); u.add(i, v); m[i] += v; }
    std::vector<i64> ks, p{ 0 }; for (auto& [k, v] : m) ks.push_back(k), p.push_back(p.back() + v); auto at = [&](i64 x) { return p[std::lower_bound(ks.begin(), ks.end(), x) - ks.begin()]; };
    for (int k = 0; k < 3000; ++k) { i64 l = b.coin() ? ks[b.raw(ks.size())] : b.range(0, n), r = b.coin() ? ks[b.raw(ks.size())] : b.range(0, n); if (l > r) std::swap(l, r); EQ(t.sum(l, r), at(r) - at(l)); EQ(u.sum(l, r), at(r) - at(l)); }
}
PBT(fenwick_2d_large, 2, "every case: more than 10^5 cells") {
    int h = g.coin() ? 2 : 500, w = h == 2 ? 100000 : 300; Bulk b(g); g.nontrivial(); suisen::FenwickTree2D<i64> t(h, w); std::vector<std::vector<i64>> a(h, std::vector<i64>(w)), p(h + 1, std::vector<i64>(w + 1));
    for (int k = 0; k < 50000; ++k) { int i = b.in(0, h - 1), j = b.in(0, w - 1); i64 v = b.range(-G, G); t.add(i, j, v); a[i][j] += v; }
    for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) p[i + 1][j + 1] = p[i][j + 1] + p[i + 1][j] - p[i][j] + a[i][j];
    for (int k = 0; k < 10000; ++k) { auto [u, d] = b.seg(h); auto [l, r] = b.seg(w); EQ(t.sum(u, d, l, r), p[d][r] - p[u][r] - p[d][l] + p[u][l]); }
}
static i64 neg_ll(i64 x) { return -x; }
PBT(points_2d_large, 2, "every case: 20000 points") {
    int n = 20000, R = g.pick<int>({ 100, 1000000000 }); Bulk b(g); g.nontrivial(); std::vector<std::pair<int, int>> ps(n); for (auto& [x, y] : ps) x = b.in(-R, R), y = b.in(-R, R);
    suisen::FenwickTree2DSparse<i64> t(n); suisen::CompressedFenwickTree<i64, add_ll, zero_ll, neg_ll, 2, int> c; suisen::CompressedFenwickTreePrefix<i64, max_ll, ninf_ll, 2, int> m; for (auto [x, y] : ps) t.add_point(x, y), c.add_point({ x, y }), m.add_point({ x, y }); t.build(); c.build(); m.build();
    std::vector<i64> v(n); for (int i = 0; i < n; ++i) { v[i] = b.range(-G, G); t.add(ps[i].first, ps[i].second, v[i]); c.apply({ ps[i].first, ps[i].second }, v[i]); m.apply({ ps[i].first, ps[i].second }, v[i]); }
    for (int q = 0; q < 150; ++q) { int l = b.in(-R - 1, R + 1), r = b.in(-R - 1, R + 1), d = b.in(-R - 1, R + 1), u = b.in(-R - 1, R + 1); if (l > r) std::swap(l, r); if (d > u) std::swap(d, u); i64 s = 0, x = ninf_ll(); for (int i = 0; i < n; ++i) { auto [px, py] = ps[i]; if (px < r && py < u) { x = std::max(x, v[i]); if (l <= px && d <= py) s += v[i]; } }
        EQ(t.sum(l, r, d, u), s); EQ(c.query({ std::pair<int, int>{ l, r }, std::pair<int, int>{ d, u } }), s); EQ(m.prefix_query({ r, u }), x); }
}
struct R4 { int l, r, d, u; i64 w; };
static R4 rect(Bulk& b, int M) { R4 q{ b.in(-M, M), b.in(-M, M), b.in(-M, M), b.in(-M, M), b.range(-1000, 1000) }; if (q.l > q.r) std::swap(q.l, q.r); if (q.d > q.u) std::swap(q.d, q.u); return q; }
static i64 overlap(const R4& a, const R4& b) { i64 x = std::min(a.r, b.r) - std::max(a.l, b.l), y = std::min(a.u, b.u) - std::max(a.d, b.d); return x > 0 && y > 0 ? x * y : 0; }
PBT(rectangles_large, 2, "every case: thousands of rectangles") {
    int n = 6000, M = g.pick<int>({ 200, 1000000 }); Bulk b(g); g.nontrivial(); std::vector<R4> rs(n); for (auto& r : rs) r = rect(b, M); suisen::RectangleAddRectangleSum<Z> t(2 * n); for (auto& r : rs) t.register_add_query_rectangle(r.l, r.r, r.d, r.u); t.build();
    suisen::OfflineRectangleAddPointGet<i64> o; std::vector<suisen::AddQuery<Z>> aq; std::vector<suisen::SumQuery> sq; std::vector<Z> want; std::vector<i64> pts;
    for (auto& r : rs) { t.add(r.l, r.r, r.d, r.u, Z(r.w)); o.add(r.l, r.r, r.d, r.u, r.w); aq.emplace_back(r.l, r.r, r.d, r.u, Z(r.w)); }
    for (int k = 0; k < 400; ++k) { R4 z = rect(b, M); Z e = 0; i64 p = 0; int x = b.in(-M, M), y = b.in(-M, M); for (auto& r : rs) { e += Z(overlap(r, z)) * Z(r.w); if (r.l <= x && x < r.r && r.d <= y && y < r.u) p += r.w; } EQ(t.sum(z.l, z.r, z.d, z.u), e); sq.emplace_back(z.l, z.r, z.d, z.u); want.push_back(e); o.get(x, y); pts.push_back(p); }
    EQ(suisen::static_rectangle_add_rectangle_sum<Z>(aq, sq), want); EQ(o.solve(), pts);
}
