#include "common.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp"
using namespace hv;
// one in-place modification through the element proxy; returns the new reference value
template <class X> static i64 poke(Gen& g, X&& p, i64 cur) {
    i64 v = g.range(-9, 9), nz = v ? v : 3;
    switch (g.raw(8)) { case 0: ++p; return cur + 1; case 1: --p; return cur - 1; case 2: p += v; return cur + v; case 3: p -= v; return cur - v; case 4: p *= 2; return cur * 2; case 5: p /= nz; return cur / nz; case 6: p %= nz; return cur % nz; default: p = v; return v; }
}
PBT(fenwick, 40000, "a range sum over at least two cells after an update", 8, 23) {
    int n = g.size(0, 40); std::vector<i64> a = g.vec<i64>(n, -99, 99); g.note("n=", n, a);
    suisen::FenwickTree<i64> t; switch (g.raw(3)) { case 0: t = suisen::FenwickTree<i64>(a); break; case 1: t = suisen::FenwickTree<i64>(std::vector<i64>(a)); break; default: t = suisen::FenwickTree<i64>(n); a.assign(n, 0); }
    EQ(t.size(), n); bool up = false;
    for (int q = g.size(1, 40); q--;) {
        if (g.coin() && n) { int i = g.raw(n); up = true; if (g.coin()) { i64 v = g.range(-99, 99); g.note("add", i, v); t.add(i, v); a[i] += v; } else { g.note("poke", i); a[i] = poke(g, t[i], a[i]); i64 c = t[i]; EQ(c, a[i]); } }
        else { auto [l, r] = g.seg(n); g.note("sum", l, r); i64 e = std::accumulate(a.begin() + l, a.begin() + r, i64(0)); EQ(g.coin() ? t.sum(l, r) : t(l, r), e); if (up && r - l > 1) g.nontrivial(); }
    }
}
template <bool un> static void mapft(Gen& g) {
    using T = suisen::MapFenwickTree<i64, i64, un>; i64 n = g.pick<i64>({ 5, 1000, 1LL << 40, 1000000000000000000LL }); T t(n); std::map<i64, i64> m; g.note("n=", n);
    auto key = [&] { return m.size() && g.coin() ? std::next(m.begin(), g.raw(m.size()))->first : (i64)g.edgy(0, n - 1); };
    for (int q = g.size(1, 30); q--;) {
        if (g.coin()) { i64 k = key(), v = g.range(-99, 99); g.note("add", k, v); if (g.coin()) { t.add(k, v); m[k] += v; } else { m[k] = poke(g, t[k], m[k]); } }
        else { i64 l = key(), r = key() + g.raw(2); if (l > r) std::swap(l, r); g.note("sum", l, r); i64 e = 0; for (auto it = m.lower_bound(l); it != m.end() && it->first < r; ++it) e += it->second; EQ(g.coin() ? t.sum(l, r) : t(l, r), e); if (e && n > 1000) g.nontrivial(); }
    }
}
PBT(map_fenwick, 15000, "a non-zero sum over a huge index range", 8, 12) { mapft<false>(g); }
PBT(unordered_map_fenwick, 15000, "a non-zero sum over a huge index range", 8, 12) { mapft<true>(g); }
PBT(fenwick_prefix, 40000, "prefix query over at least two cells", 8, 12) {
    using T = suisen::FenwickTreePrefix<i64, max_ll, ninf_ll>; int n = g.size(0, 40); std::vector<i64> a = g.vec<i64>(n, -99, 99); bool z = g.chance(1, 3); if (z) a.assign(n, ninf_ll()); T t = z ? T(n) : T(a); g.note("n=", n, z, a);
    for (int q = g.size(1, 40); q--;) {
        if (g.coin() && n) { int i = g.raw(n); i64 v = g.range(-199, 199); g.note("apply", i, v); t.apply(i, v); a[i] = std::max(a[i], v); }
        else { int r = g.raw(n + 1); g.note("prefix", r); i64 e = ninf_ll(); for (int i = 0; i < r; ++i) e = std::max(e, a[i]); EQ(t.prefix_query(r), e); if (r > 1) g.nontrivial(); }
    }
    using T2 = suisen::FenwickTreePrefix<i64, add_ll, zero_ll>; std::vector<i64> b = g.vec<i64>(n, -99, 99); T2 u(b); i64 s = 0; for (int r = 0; r <= n; ++r) { EQ(u.prefix_query(r), s); if (r < n) s += b[r]; }
}
PBT(fenwick_2d, 20000, "a rectangle sum of at least 2x2 after an update", 8, 14) {
    int n = g.size(0, 12), m = g.size(0, 12); suisen::FenwickTree2D<i64> t(n, m); std::vector<std::vector<i64>> a(n, std::vector<i64>(m)); g.note("n,m", n, m); bool up = false;
    for (int q = g.size(1, 30); q--;) {
        if (g.coin() && n && m) { int i = g.raw(n), j = g.raw(m); up = true; if (g.coin()) { i64 v = g.range(-99, 99); g.note("add", i, j, v); t.add(i, j, v); a[i][j] += v; } else { g.note("poke", i, j); a[i][j] = poke(g, t[{ i, j }], a[i][j]); i64 c = t[{ i, j }]; EQ(c, a[i][j]); } }
        else { auto [l, r] = g.seg(n); auto [d, u] = g.seg(m); g.note("sum", l, r, d, u); i64 e = 0; for (int i = l; i < r; ++i) for (int j = d; j < u; ++j) e += a[i][j]; EQ(g.coin() ? t.sum(l, r, d, u) : t(l, r, d, u), e); if (up && r - l > 1 && u - d > 1) g.nontrivial(); }
    }
}
PBT(fenwick_2d_sparse, 15000, "a rectangle sum containing at least two points", 8, 12) {
    int k = g.size(1, 12); std::vector<std::pair<int, int>> ps; int R = g.pick<int>({ 4, 20, 1000000000 }); for (int i = 0; i < k; ++i) ps.push_back({ (int)g.range(-R, R), (int)g.range(-R, R) });
    if (g.coin()) ps.push_back(ps[g.raw(k)]); std::set<int> xs; for (auto& p : ps) xs.insert(p.first); int num = xs.size() + g.raw(4);
    suisen::FenwickTree2DSparse<i64> t(num); for (auto [x, y] : ps) t.add_point(x, y); t.build(); g.note("pts", ps); std::map<std::pair<int, int>, i64> m; for (auto p : ps) m[p] = 0;
    auto cx = [&] { return g.coin() ? ps[g.raw(ps.size())].first + (int)g.raw(2) : (int)g.range(-R - 1, R + 1); }; auto cy = [&] { return g.coin() ? ps[g.raw(ps.size())].second + (int)g.raw(2) : (int)g.range(-R - 1, R + 1); };
    for (int q = g.size(1, 30); q--;) {
        auto p = ps[g.raw(ps.size())]; auto [x, y] = p; i64 v = g.range(-99, 99);
        switch (g.raw(5)) {
        case 0: g.note("add", x, y, v); t.add(x, y, v); m[p] += v; break;
        case 1: g.note("set", x, y, v); t.set(x, y, v); m[p] = v; break;
        case 2: g.note("apply", x, y); t.apply(x, y, [](i64 z) { return 2 * z + 1; }); m[p] = 2 * m[p] + 1; if (std::abs(m[p]) > 1000000000) { t.set(x, y, 5); m[p] = 5; } break;
        case 3: EQ(t.get(x, y), m[p]); break;
        default: { int l = cx(), r = cx(), d = cy(), u = cy(); if (l > r) std::swap(l, r); if (d > u) std::swap(d, u); g.note("sum", l, r, d, u); i64 e = 0; int c = 0; for (auto& [k, w] : m) if (l <= k.first && k.first < r && d <= k.second && k.second < u) e += w, ++c; EQ(g.coin() ? t.sum(l, r, d, u) : t(l, r, d, u), e); if (c > 1) g.nontrivial(); } break;
        }
    }
}
static i64 neg_ll(i64 x) { return -x; }
PBT(compressed_1d, 15000, "a query containing at least two points", 8, 12) {
    suisen::CompressedFenwickTree<i64, add_ll, zero_ll, neg_ll> t; suisen::CompressedFenwickTreePrefix<i64, max_ll, ninf_ll> p; std::vector<int> xs = g.vec<int>(g.size(1, 14), -20, 20); if (g.coin()) for (auto& x : xs) x *= 50000000;
    for (int x : xs) t.add_point(x), p.add_point(x); t.build(); p.build(); std::map<int, i64> m, mx; for (int x : xs) m[x] = 0, mx[x] = ninf_ll(); g.note("xs", xs);
    auto c = [&] { return g.coin() ? xs[g.raw(xs.size())] + (int)g.raw(2) : (int)g.range(-25, 25); };
    for (int q = g.size(1, 30); q--;) {
        int x = xs[g.raw(xs.size())]; i64 v = g.range(-99, 99);
        if (g.coin()) { g.note("apply", x, v); t.apply(x, v); m[x] += v; p.apply(x, v); mx[x] = std::max(mx[x], v); }
        else { int l = c(), r = c(); if (l > r) std::swap(l, r); g.note("query", l, r); i64 e = 0, f = ninf_ll(); int k = 0; for (auto& [x, w] : m) if (l <= x && x < r) e += w, ++k; for (auto& [x, w] : mx) if (x < r) f = std::max(f, w); EQ(g.coin() ? t.query(l, r) : t.query({ l, r }), e); EQ(p.prefix_query(r), f); if (k > 1) g.nontrivial(); }
    }
}
template <int K> static void comp(Gen& g) {
    using P = std::array<i64, K>; suisen::CompressedFenwickTree<i64, add_ll, zero_ll, neg_ll, K, i64> t; suisen::CompressedFenwickTreePrefix<i64, max_ll, ninf_ll, K, i64> pt;
    i64 R = g.pick<i64>({ 3, 10, 1000000000000000LL }); std::vector<P> ps(g.size(1, 12)); for (auto& p : ps) for (auto& x : p) x = g.range(-R, R);
    std::map<P, i64> m, mx; for (auto& p : ps) { t.add_point(p); pt.add_point(p); m[p] = 0; mx[p] = ninf_ll(); } t.build(); pt.build(); g.note("K", K, "pts"); for (auto& p : ps) g.note(std::vector<i64>(p.begin(), p.end()));
    for (int q = g.size(1, 30); q--;) {
        P p = ps[g.raw(ps.size())]; i64 v = g.range(-99, 99);
        if (g.coin()) { g.note("apply", std::vector<i64>(p.begin(), p.end()), v); t.apply(p, v); m[p] += v; pt.apply(p, v); mx[p] = std::max(mx[p], v); }
        else {
            std::array<std::pair<i64, i64>, K> cube; P lo, hi; for (int d = 0; d < K; ++d) { i64 l = g.coin() ? ps[g.raw(ps.size())][d] + g.raw(2) : g.range(-R - 1, R + 1), r = g.coin() ? ps[g.raw(ps.size())][d] + g.raw(2) : g.range(-R - 1, R + 1); if (l > r) std::swap(l, r); cube[d] = { l, r }; lo[d] = l; hi[d] = r; }
            i64 e = 0, f = ninf_ll(); int c = 0; for (auto& [x, w] : m) { bool in = true; for (int d = 0; d < K; ++d) in &= lo[d] <= x[d] && x[d] < hi[d]; if (in) e += w, ++c; } for (auto& [x, w] : mx) { bool in = true; for (int d = 0; d < K; ++d) in &= x[d] < hi[d]; if (in) f = std::max(f, w); }
            g.note("query"); EQ(t.query(cube), e); EQ(pt.prefix_query(hi), f); if (c > 1) g.nontrivial();
        }
    }
}
PBT(compressed_2d, 12000, "a query containing at least two points", 8, 16) { comp<2>(g); }
PBT(compressed_3d, 8000, "a query containing at least two points", 8, 12) { comp<3>(g); }
