#include "common.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
using namespace hv;
PBT(dense2d, 10000, "a set and a query over a proper sub-rectangle with at least two cells", 8, 12) {
    using T = suisen::SegmentTree2D<i64, add_ll, zero_ll>;
    int h = g.size(1, 12), w = g.size(1, 12);
    std::vector<std::vector<i64>> a(h, std::vector<i64>(w));
    bool ctor = g.coin(); if (ctor) for (auto& r : a) for (auto& x : r) x = g.range(-5, 5);
    T t = ctor ? T(a) : T(h, w); bool upd = false;
    g.note("h,w=", h, w, "from_grid", ctor);
    for (int q = g.size(1, 25); q--;) switch (g.raw(3)) {
        case 0: { int i = g.raw(h), j = g.raw(w); i64 v = g.range(-9, 9); t.set(i, j, v); a[i][j] = v; upd = true; g.note("set", i, j, v); break; }
        case 1: { int i = g.raw(h), j = g.raw(w); EQ(t.get(i, j), a[i][j]); break; }
        default: { auto [u, d] = g.seg(h); auto [l, r] = g.seg(w); i64 s = 0; for (int i = u; i < d; ++i) for (int j = l; j < r; ++j) s += a[i][j]; g.note("query", u, d, l, r); EQ(t(u, d, l, r), s); if (upd && (d - u) * (r - l) > 1) g.nontrivial(); }
    }
}
PBT(sparse2d, 10000, "two or more updates and a query covering at least two registered points", 8, 13) {
    using T = suisen::SegmentTree2DSparse<i64, add_ll, zero_ll>;
    int k = g.size(1, 25), lim = g.pick<int>({ 2, 6, 1000 });
    std::map<std::pair<int, int>, i64> m; std::set<int> xs; std::vector<std::pair<int, int>> ps;
    for (int i = 0; i < k; ++i) { int x = g.in(-lim, lim), y = g.in(-lim, lim); ps.emplace_back(x, y); xs.insert(x); m[{ x, y }] = 0; }
    T t(g.coin() ? int(xs.size()) : k); for (auto [x, y] : ps) t.add_point(x, y);
    t.build(); g.note("points", ps); int upd = 0;
    for (int q = g.size(1, 30); q--;) {
        int l = g.in(-lim - 1, lim + 1), r = g.in(-lim - 1, lim + 2), d = g.in(-lim - 1, lim + 1), u = g.in(-lim - 1, lim + 2); if (l > r) std::swap(l, r); if (d > u) std::swap(d, u);
        switch (g.raw(6)) {
            case 0: { auto p = g.pick(ps); i64 v = g.range(0, 9); t.set(p.first, p.second, v); m[p] = v; ++upd; g.note("set", p, v); break; }
            case 1: { auto p = g.pick(ps); i64 v = g.range(0, 9); t[p] += v; m[p] += v; ++upd; g.note("add", p, v); break; }
            case 2: { auto p = g.pick(ps); EQ(t.get(p.first, p.second), m[p]); i64 s = 0; for (auto& [q2, v] : m) s += v; EQ(t.all_prod(), s); break; }
            default: { i64 s = 0; int c = 0; for (auto& [p, v] : m) if (l <= p.first && p.first < r && d <= p.second && p.second < u) s += v, ++c; g.note("query", l, r, d, u); EQ(g.coin() ? t.prod(l, r, d, u) : t(l, r, d, u), s); if (upd > 1 && c > 1) g.nontrivial(); break; }
        }
    }
}
static i64 gcdop(i64 a, i64 b) { return std::gcd(a, b); }
static i64 orop(i64 a, i64 b) { return a | b; }
PBT(sparse2d_search, 10000, "search stopped by a registered point", 8, 14) {
    // with an idempotent-free per-column predicate the answer is the nearest y at
    // which some single column block already violates f; use OR / max where
    // f(x | y) = f(x) && f(y), so the answer is well defined
    using T = suisen::SegmentTree2DSparse<i64, orop, zero_ll>;
    int k = g.size(1, 15), lim = g.pick<int>({ 3, 8 });
    std::map<std::pair<int, int>, i64> m; std::vector<std::pair<int, int>> ps;
    for (int i = 0; i < k; ++i) { int x = g.in(-lim, lim), y = g.in(-lim, lim); ps.emplace_back(x, y); m[{ x, y }] = 0; }
    T t(k); for (auto [x, y] : ps) t.add_point(x, y);
    t.build();
    for (auto& [p, v] : m) if (g.coin()) t.set(p.first, p.second, v = g.range(0, 3));
    g.note("m", m);
    for (int q = 8; q--;) {
        int l = g.in(-lim - 1, lim + 1), r = g.in(-lim - 1, lim + 2), d = g.in(-lim - 1, lim + 1); if (l > r) std::swap(l, r);
        i64 mask = g.range(0, 3); auto f = [&](i64 x) { return (x & mask) == 0; };
        int up = std::numeric_limits<int>::max(), dn = std::numeric_limits<int>::min();
        for (auto& [p, v] : m) if (l <= p.first && p.first < r && (v & mask)) { if (p.second >= d) up = std::min(up, p.second); if (p.second < d) dn = std::max(dn, p.second + 1); }
        g.note("l,r,d,mask", l, r, d, mask);
        EQ(t.max_up(l, r, d, f), up);
        EQ(t.min_down(l, r, d, f), dn);
        if (up != std::numeric_limits<int>::max() || dn != std::numeric_limits<int>::min()) g.nontrivial();
    }
}
