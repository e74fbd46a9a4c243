#include "large.hpp"
#include <complex>
#include <cmath>
#include "library/geom/geometry.hpp"
#include "library/geom/closest_pair.hpp"
#include "library/geom/convex_hull.hpp"
#include "library/geom/segment_intersections.hpp"
using namespace hv; namespace ge = suisen::geometry; using Pt = std::pair<i64, i64>; using ld = long double;
static i64 cr(const Pt& o, const Pt& a, const Pt& b) { return (a.first - o.first) * (b.second - o.second) - (a.second - o.second) * (b.first - o.first); }
static i64 d2(const Pt& a, const Pt& b) { i64 x = a.first - b.first, y = a.second - b.second; return x * x + y * y; }
static std::vector<Pt> cloud(Gen& g, Bulk& b, int n) { int sh = g.raw(3); g.note("n ", n, " shape ", sh); i64 R = 100000; std::vector<Pt> v(n); for (int i = 0; i < n; ++i) switch (sh) { case 0: v[i] = { b.range(-R, R), b.range(-R, R) }; break; case 1: { double t = b.raw(1000000000) * 6.283185307179586e-9; v[i] = { (i64)(R * std::cos(t)), (i64)(R * std::sin(t)) }; } break; default: { i64 t = b.range(-20000, 20000); v[i] = { t, b.coin() ? t : -t + 3 }; } } std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); b.shuffle(v); return v; }
PBT(point_sets_large, 4, "every case: tens of thousands of points") {
    Bulk b(g); g.nontrivial(); auto v = cloud(g, b, g.in(30000, 70000)); int n = v.size(); std::vector<ge::Point> vp; for (auto& p : v) vp.emplace_back(p.first, p.second); auto s = v; std::sort(s.begin(), s.end()); std::vector<Pt> lo, up; for (auto& p : s) { while (lo.size() >= 2 && cr(lo[lo.size() - 2], lo.back(), p) <= 0) lo.pop_back(); lo.push_back(p); } for (int i = n; i-- > 0;) { while (up.size() >= 2 && cr(up[up.size() - 2], up.back(), s[i]) <= 0) up.pop_back(); up.push_back(s[i]); } lo.pop_back(); up.pop_back(); lo.insert(lo.end(), up.begin(), up.end()); auto ids = ge::convex_hull(vp); std::vector<Pt> h; for (int i : ids) h.push_back(v[i]); int m = h.size(); std::vector<Pt> k; for (int i = 0; i < m; ++i) if (cr(h[(i + m - 1) % m], h[i], h[(i + 1) % m]) != 0) k.push_back(h[i]); CKM(k == lo, "hull"); CK(std::set<Pt>(h.begin(), h.end()).size() == h.size()); i64 far = 0; int c = lo.size(); for (int i = 0; i < c; ++i) for (int j = 0; j < i; ++j) far = std::max(far, d2(lo[i], lo[j])); ge::Polygon P; for (auto& p : lo) P.push_back(ge::Point(p.first, p.second)); auto [x, y, dist] = ge::convex_diameter(P); CK(std::abs((ld)dist - std::sqrt((ld)far)) < 1e-3L); ld ar = 0; for (int i = 0; i < c; ++i) ar += cr({ 0, 0 }, lo[i], lo[(i + 1) % c]); CK(std::abs((ld)ge::area(P) - ar / 2) <= 1e-6L * (1 + ar));
    i64 best = d2(s[0], s[1]); std::set<Pt> a; size_t l = 0; for (auto& x : s) { i64 d = (i64)std::sqrt((double)best) + 1; while (s[l].first < x.first - d) a.erase({ s[l].second, s[l].first }), ++l; for (auto it = a.lower_bound({ x.second - d, INT64_MIN }); it != a.end() && it->first <= x.second + d; ++it) best = std::min(best, d2({ it->second, it->first }, x)); a.insert({ x.second, x.first }); } auto [p, q] = ge::closest_pair(vp); CK(std::abs((ld)std::norm(p - q) - (ld)best) < 0.25L); CK(std::find(vp.begin(), vp.end(), p) != vp.end() && std::find(vp.begin(), vp.end(), q) != vp.end());
}
PBT(axis_parallel_large, 3, "every case: more intersections than fit an int") {
    int n = g.in(60000, 100000), m = g.in(60000, 100000); Bulk b(g); g.nontrivial(); int R = g.pick(std::vector<int>{ 1000, 1000000000 }); bool full = g.coin(); std::vector<std::pair<i64, std::pair<i64, i64>>> v(n); std::vector<std::pair<std::pair<i64, i64>, i64>> h(m); auto c = [&] { return b.range(-R, R); }; for (auto& [x, y] : v) x = c(), y = full ? std::make_pair<i64, i64>(-R, R) : std::make_pair(c(), c()); for (auto& [x, y] : h) y = c(), x = full ? std::make_pair<i64, i64>(R, -R) : std::make_pair(c(), c());
    i64 w = 0; if (full) w = (i64)n * m; else { std::vector<i64> ys; for (auto& [x, y] : h) ys.push_back(y); std::sort(ys.begin(), ys.end()); std::vector<int> bit(m + 1); std::vector<std::tuple<i64, int, int>> ev; for (int i = 0; i < m; ++i) { auto [p, q] = std::minmax(h[i].first.first, h[i].first.second); ev.emplace_back(p, 0, i), ev.emplace_back(q, 2, i); } for (int i = 0; i < n; ++i) ev.emplace_back(v[i].first, 1, i); std::sort(ev.begin(), ev.end()); auto add = [&](int i, int d) { for (++i; i <= m; i += i & -i) bit[i] += d; }; auto sum = [&](int i) { int s = 0; for (; i; i -= i & -i) s += bit[i]; return s; }; for (auto [x, t, i] : ev) if (t == 1) { auto [p, q] = std::minmax(v[i].second.first, v[i].second.second); w += sum(std::upper_bound(ys.begin(), ys.end(), q) - ys.begin()) - sum(std::lower_bound(ys.begin(), ys.end(), p) - ys.begin()); } else add(std::lower_bound(ys.begin(), ys.end(), h[i].second) - ys.begin(), t ? -1 : 1); }
    EQ((i64)ge::segment_intersections<i64>(v, h), w);
}
