#include "common.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/static_rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp"
#include <atcoder/modint>
using namespace hv;
using mint = atcoder::modint998244353;
// values of a generated type: modular, wrapping unsigned, 128-bit, and (exactly representable) floating ones
template <typename T> struct Val;
template <> struct Val<mint> { static mint mk(Gen& g) { return mint((i64)g.edgy(0, 998244352)); } static bool eq(mint a, mint b) { return a == b; } };
template <> struct Val<unsigned> { static unsigned mk(Gen& g) { return (unsigned)g.u64any(); } static bool eq(unsigned a, unsigned b) { return a == b; } };
template <> struct Val<u64> { static u64 mk(Gen& g) { return g.u64any(); } static bool eq(u64 a, u64 b) { return a == b; } };
template <> struct Val<__int128_t> { static __int128_t mk(Gen& g) { return (__int128_t)(i64)g.u64any() * g.range(-1000000, 1000000); } static bool eq(__int128_t a, __int128_t b) { return a == b; } };
template <> struct Val<i64> { static i64 mk(Gen& g) { return g.range(-1000000000000LL, 1000000000000LL); } static bool eq(i64 a, i64 b) { return a == b; } };
template <> struct Val<double> { static double mk(Gen& g) { return g.range(-4000, 4000) / 8.0; } static bool eq(double a, double b) { return a == b; } };
template <typename T> static void dense(Gen& g) {
    using V = Val<T>; int n = g.size(0, 30); std::vector<T> a(n); for (auto& x : a) x = V::mk(g); suisen::FenwickTree<T> t(a); if (g.coin()) { t = suisen::FenwickTree<T>(n); a.assign(n, T{}); } EQ((int)t.size(), n); bool up = false; g.note("n=", n);
    for (int q = g.size(1, 30); q--;) {
        if (n && g.coin()) { int i = g.raw(n); T v = V::mk(g); up = true; switch (g.raw(5)) { case 0: t.add(i, v); a[i] += v; break; case 1: t[i] += v; a[i] += v; break; case 2: t[i] -= v; a[i] -= v; break; case 3: t[i] = v; a[i] = v; break; default: ++t[i]; a[i] += 1; --t[i]; a[i] -= 1; } T c = t[i]; CK(V::eq(c, a[i])); }
        else { auto [l, r] = g.seg(n); T e{}; for (int i = l; i < r; ++i) e += a[i]; CK(V::eq(t.sum(l, r), e)); CK(V::eq(t(l, r), e)); if (up && r - l > 1) g.nontrivial(); }
    }
    int h = g.size(0, 7), w = g.size(0, 7); suisen::FenwickTree2D<T> s(h, w); std::vector<std::vector<T>> b(h, std::vector<T>(w));
    for (int q = g.size(1, 20); q--;) {
        if (h && w && g.coin()) { int i = g.raw(h), j = g.raw(w); T v = V::mk(g); if (g.coin()) s.add(i, j, v), b[i][j] += v; else if (g.coin()) s[{ i, j }] = v, b[i][j] = v; else s[{ i, j }] -= v, b[i][j] -= v; }
        else { auto [l, r] = g.seg(h); auto [d, u] = g.seg(w); T e{}; for (int i = l; i < r; ++i) for (int j = d; j < u; ++j) e += b[i][j]; CK(V::eq(s.sum(l, r, d, u), e)); }
    }
}
PBT(fenwick_modular, 4000, "a range sum over at least two cells after an update") { dense<mint>(g); }
PBT(fenwick_unsigned, 4000, "a range sum over at least two cells after an update") { dense<unsigned>(g); }
PBT(fenwick_unsigned_long, 4000, "a range sum over at least two cells after an update") { dense<u64>(g); }
PBT(fenwick_int128, 4000, "a range sum over at least two cells after an update") { dense<__int128_t>(g); }
PBT(fenwick_double, 4000, "a range sum over at least two cells after an update") { dense<double>(g); }
// map-backed trees over every length the index type can express
template <typename I, bool un, typename T> static void mapfull(Gen& g) {
    using V = Val<T>; constexpr I mx = std::numeric_limits<I>::max(); I n = g.pick<I>({ mx, mx - 1, mx / 2, mx / 2 + 1, mx / 2 + 2, mx / 3 * 2, 1, 7 }); suisen::MapFenwickTree<T, I, un> t(n); std::map<I, T> m; g.note("n=", n); EQ((i64)t.size(), (i64)n);
    auto key = [&]() -> I { return m.size() && g.coin() ? std::next(m.begin(), g.raw(m.size()))->first : (I)g.edgy(0, n - 1); };
    for (int q = g.size(1, 30); q--;) {
        if (g.coin()) { I k = key(); T v = V::mk(g); g.note("add", k); if (g.coin()) t.add(k, v), m[k] += v; else t[k] = v, m[k] = v; T c = t[k]; CK(V::eq(c, m[k])); }
        else { I l = key(), r = key(); if (l > r) std::swap(l, r); r += g.raw(2); if (g.chance(1, 5)) r = n; g.note("sum", l, r); T e{}; for (auto it = m.lower_bound(l); it != m.end() && it->first < r; ++it) e += it->second; CK(V::eq(t.sum(l, r), e)); if (m.size() > 1 && n > 100) g.nontrivial(); }
    }
}
#define MAPRULE "a sum when at least two keys of a range of more than 100 indices were touched"
PBT(map_fenwick_int_index, 4000, MAPRULE) { mapfull<int, false, mint>(g); }
PBT(map_fenwick_long_index, 4000, MAPRULE) { mapfull<i64, false, u64>(g); }
PBT(unordered_map_fenwick_int_index, 3000, MAPRULE) { mapfull<int, true, u64>(g); }
PBT(unordered_map_fenwick_long_index, 3000, MAPRULE) { mapfull<i64, true, mint>(g); }
// rectangles over the whole coordinate range with values modulo a prime
struct R { int l, r, d, u; mint w; };
static int coord(Gen& g, int M) { return (int)g.edgy(-M, M); }
static R rect(Gen& g, int M) { int a = coord(g, M), b = coord(g, M), c = coord(g, M), d = coord(g, M); if (a > b) std::swap(a, b); if (c > d) std::swap(c, d); R q{ a, b, c, d, Val<mint>::mk(g) }; g.note("rect", q.l, q.r, q.d, q.u, q.w.val()); return q; }
static mint overlap(const R& a, const R& b) { i64 x = (i64)std::min(a.r, b.r) - std::max(a.l, b.l), y = (i64)std::min(a.u, b.u) - std::max(a.d, b.d); return x > 0 && y > 0 ? mint(x) * mint(y) : mint(0); }
PBT(rectangle_sum_modular, 4000, "a query overlapping at least two added rectangles") {
    int k = g.size(0, 10), M = g.pick<int>({ 3, 1000, 1000000000, 2147483000 }); std::vector<R> rs(k), qs(g.size(0, 10)); for (auto& r : rs) r = rect(g, M); for (auto& r : qs) r = rect(g, M);
    suisen::RectangleAddRectangleSum<mint> t(2 * k + g.raw(3)); for (auto& r : rs) t.register_add_query_rectangle(r.l, r.r, r.d, r.u); t.build(); std::vector<suisen::AddQuery<mint>> aq; std::vector<suisen::SumQuery> sq; std::vector<mint> fin;
    size_t done = 0; for (auto& z : qs) { while (done < rs.size() && g.chance(2, 3)) { auto& r = rs[done++]; t.add(r.l, r.r, r.d, r.u, r.w); } mint e = 0; int c = 0; for (size_t i = 0; i < rs.size(); ++i) { mint o = overlap(rs[i], z); if (i < done) e += o * rs[i].w, c += o != 0; } EQ(t.sum(z.l, z.r, z.d, z.u).val(), e.val()); if (c > 1) g.nontrivial(); }
    for (auto& r : rs) aq.emplace_back(r.l, r.r, r.d, r.u, r.w); for (auto& r : qs) sq.emplace_back(r.l, r.r, r.d, r.u);
    auto res = suisen::static_rectangle_add_rectangle_sum<mint>(aq, sq); CK(res.size() == qs.size()); for (size_t i = 0; i < qs.size(); ++i) { mint e = 0; for (auto& r : rs) e += overlap(r, qs[i]) * r.w; EQ(res[i].val(), e.val()); }
}
template <typename I, typename T> static void offline(Gen& g) {
    using V = Val<T>; constexpr I mx = std::numeric_limits<I>::max(); I M = g.pick<I>({ 3, 50, mx / 2, mx }); suisen::OfflineRectangleAddPointGet<T, I> t; struct Q { I l, r, d, u; T w; }; std::vector<Q> rs; std::vector<T> exp; g.note("M=", M);
    for (int q = g.size(0, 40); q--;) {
        if (g.coin()) { I a = (I)g.edgy(-M, M), b = (I)g.edgy(-M, M), c = (I)g.edgy(-M, M), d = (I)g.edgy(-M, M); if (a > b) std::swap(a, b); if (c > d) std::swap(c, d); T w = V::mk(g); t.add(a, b, c, d, w); rs.push_back({ a, b, c, d, w }); g.note("add", a, b, c, d); }
        else { I x = (I)g.edgy(-M, M), y = (I)g.edgy(-M, M); if (rs.size() && g.coin()) { auto& r = rs[g.raw(rs.size())]; x = g.coin() ? r.l : r.r; y = g.coin() ? r.d : r.u; } g.note("get", x, y); t.get(x, y); T e{}; int c = 0; for (auto& r : rs) if (r.l <= x && x < r.r && r.d <= y && y < r.u) e += r.w, ++c; exp.push_back(e); if (c > 1) g.nontrivial(); }
    }
    auto res = t.solve(); CK(res.size() == exp.size()); for (size_t i = 0; i < exp.size(); ++i) CKM(V::eq(res[i], exp[i]), "a point");
}
#define OFFRULE "a point covered by at least two rectangles at query time"
PBT(offline_rectangles_modular, 4000, OFFRULE) { offline<int, mint>(g); }
PBT(offline_rectangles_long_index, 4000, OFFRULE) { offline<i64, i64>(g); }
PBT(offline_rectangles_double, 3000, OFFRULE) { offline<i64, double>(g); }
