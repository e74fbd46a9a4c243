#include "common.hpp"
#include <algorithm>
#include <cassert>
#include "library/graph/kruscal.hpp"
#include "library/graph/manhattan_mst.hpp"
#include "library/graph/manhattan_minimum_distances.hpp"
using namespace hv;
struct D { std::vector<int> p; D(int n) : p(n) { std::iota(p.begin(), p.end(), 0); } int f(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; } bool m(int a, int b) { a = f(a), b = f(b); if (a == b) return false; p[a] = b; return true; } };
template <class T, bool MAX> static void kr(Gen& g) {
    int n = g.size(0, 10); std::vector<std::tuple<int, int, T>> e; i64 lim = g.pick(std::vector<i64>{ 2, 50, 100000 }); bool neg = std::is_signed_v<T>; int m = n ? g.size(0, 2 * n) : 0; for (int i = 0; i < m; ++i) e.emplace_back(g.raw(n), g.raw(n), (T)g.range(neg ? -lim : 0, lim));
    using K = std::conditional_t<MAX, suisen::KruscalMaximumSpanningTree<T>, suisen::KruscalMinimumSpanningTree<T>>; K k(n); auto check = [&](size_t upto) { auto f = decltype(e)(e.begin(), e.begin() + upto); std::stable_sort(f.begin(), f.end(), [](auto& a, auto& b) { return MAX ? std::get<2>(b) < std::get<2>(a) : std::get<2>(a) < std::get<2>(b); }); D d(n); T w = 0; int c = 0; for (auto& [u, v, x] : f) if (d.m(u, v)) w += x, ++c; bool conn = n == 0 || c == n - 1; EQ(k.build(), conn); EQ(k.get_weight(), w); auto t = k.get_mst(); EQ((int)t.size(), c); D q(n); std::multiset<std::tuple<int, int, T>> pool(f.begin(), f.end()); T s = 0; for (size_t i = 0; i < t.size(); ++i) { auto it = pool.find(t[i]); CKM(it != pool.end(), "edge not in the graph"); pool.erase(it); CK(q.m(std::get<0>(t[i]), std::get<1>(t[i]))); s += std::get<2>(t[i]); if (i) CK(MAX ? std::get<2>(t[i - 1]) >= std::get<2>(t[i]) : std::get<2>(t[i - 1]) <= std::get<2>(t[i])); } EQ(s, w); g.nontrivial(c >= 3 && (int)upto > c); };
    for (size_t i = 0; i < e.size(); ++i) { if (g.coin()) k.add_edge(e[i]); else { auto [u, v, w] = e[i]; k.add_edge(u, v, w); } if (g.chance(1, 12)) check(i + 1); } check(e.size());
}
PBT(kruscal, 5000, "at least 3 tree edges and a rejected edge", 8, 12) { switch (g.raw(4)) { case 0: kr<int, false>(g); break; case 1: kr<i64, false>(g); break; case 2: kr<i64, true>(g); break; default: kr<unsigned, true>(g); } }
template <class T> static std::vector<std::pair<T, T>> pts(Gen& g, i64 big) { int n = g.size(0, 14); i64 lim = g.pick(std::vector<i64>{ 1, 3, 20, big }); std::vector<std::pair<T, T>> p(n); for (auto& q : p) { q = { (T)g.range(-lim, lim), (T)g.range(-lim, lim) }; } if (g.chance(1, 5)) for (auto& q : p) q.second = q.first; if (g.chance(1, 6)) for (auto& q : p) q.second = 0; return p; }
template <class T> static void man(Gen& g, i64 big) {
    auto p = pts<T>(g, big); int n = p.size(); g.note(p); auto dist = [&](int i, int j) { return std::abs((i64)p[i].first - p[j].first) + std::abs((i64)p[i].second - p[j].second); };
    std::vector<std::tuple<i64, int, int>> e; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) e.emplace_back(dist(i, j), i, j); std::sort(e.begin(), e.end()); D d(n); i64 w = 0; for (auto& [x, i, j] : e) if (d.m(i, j)) w += x; auto t = suisen::manhattan_mst<i64>(p); EQ(t.get_weight(), w); auto m = t.get_mst(); EQ((int)m.size(), std::max(0, n - 1)); D q(n); i64 s = 0; for (auto& [u, v, x] : m) { CK(q.m(u, v)); EQ((i64)x, dist(u, v)); s += x; } EQ(s, w);
    auto r = suisen::manhattan_minimum_distances(p); EQ((int)r.size(), n); for (int i = 0; i < n; ++i) { i64 b = std::numeric_limits<T>::max(); for (int j = 0; j < n; ++j) if (j != i) b = std::min(b, dist(i, j)); EQ((i64)r[i], b); } g.nontrivial(n >= 5 && w > 0);
}
PBT(manhattan, 5000, "at least 5 points, not all equal", 8, 12) { if (g.coin()) man<int>(g, 400000000); else man<i64>(g, 1000000000000000LL); }
// int points whose distances only fit the weight type, and floating points (multiples of 1/4: exact)
template <class W, class T> static void man_wide(Gen& g, i64 big, T unit) {
    auto z = pts<i64>(g, big); int n = z.size(); g.note(z); std::vector<std::pair<T, T>> p; for (auto& q : z) p.emplace_back(T(q.first * unit), T(q.second * unit)); auto dist = [&](int i, int j) { return W(std::abs(z[i].first - z[j].first) + std::abs(z[i].second - z[j].second)) * W(unit); };
    std::vector<std::tuple<W, int, int>> e; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) e.emplace_back(dist(i, j), i, j); std::sort(e.begin(), e.end()); D d(n); W w = 0; for (auto& [x, i, j] : e) if (d.m(i, j)) w += x; auto t = suisen::manhattan_mst<W>(p); CKM(t.get_weight() == w, "weight of the spanning tree"); D q(n); for (auto& [u, v, x] : t.get_mst()) { CK(q.m(u, v)); CKM(x == dist(u, v), "edge length"); }
    if constexpr (std::is_floating_point_v<T>) { auto r = suisen::manhattan_minimum_distances(p); for (int i = 0; i < n; ++i) { T b = std::numeric_limits<T>::max(); for (int j = 0; j < n; ++j) if (j != i) b = std::min(b, dist(i, j)); CKM(r[i] == b, "distance to the nearest point"); } }
    g.nontrivial(n >= 5 && w > 0);
}
PBT(manhattan_types, 4000, "at least 5 points, not all equal", 8, 12) { switch (g.raw(3)) { case 0: man_wide<i64, int>(g, 1000000000, 1); break; case 1: man_wide<double, double>(g, 1000000000000LL, 0.25); break; default: man_wide<long double, long double>(g, 1000000000000LL, 0.25L); } }
